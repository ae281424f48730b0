# Generates properties.jsonl (kept as a script so that statements stay easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
I='include/upd/'
p('C01','Integers are encoded in exactly the declared wire format',
 'Every integer written through the library (any signed or unsigned width, bool and character types included) occupies exactly as many bytes as its type, in the declared byte order, in the declared signed representation (sign-magnitude, one\'s complement, two\'s complement, or offset binary), i.e. the bytes are the mathematically defined ones for the value. Writing one value touches no byte outside its slot, and never overflows, shifts out of range or is otherwise undefined for any representable value.',
 ['inputs','configurations'],'all values of all standard integer types x 2 byte orders x 4 signed modes x platform configurations x C++11/C++17',
 'Tests encode a handful of constants; sign boundaries, the most negative values and all byte patterns of 8-byte types are never all visited.',
 [I+'detail/endianess.hpp',I+'detail/signed_representation.hpp',I+'detail/serialization.hpp'],
 [('to_endianess / to_signed_mode','detail/endianess.hpp, detail/signed_representation.hpp'),('write_as integer overloads','detail/serialization.hpp')],
 ['bytes of upd::tuple / upd::tuple_view storage after construction or set'])
p('C02','Integer values survive a round trip through the wire format',
 'For every integer type, byte order and signed representation, a value written then read back with the same format is the same value; the only exception is the most negative value in sign-magnitude and one\'s complement, which those formats cannot represent. Distinct representable values have distinct encodings.',
 ['inputs','configurations'],'all values of all standard integer types x formats x platform configurations',
 'Round trips are tested on few values; the property must hold for all 2^64 values of the widest types.',
 [I+'detail/endianess.hpp',I+'detail/signed_representation.hpp',I+'detail/serialization.hpp',I+'tuple.hpp'],
 [('read_as/write_as','detail/serialization.hpp')],['upd::tuple::get after construction/set'])
p('C03','Decoding arbitrary received bytes is total and well defined',
 'Reading an integer from any byte pattern whatsoever yields the value that the declared format assigns to this pattern (negative zeros decode to zero, any non-zero byte pattern decodes to a valid bool), deterministically, without undefined behaviour and without reading outside the value\'s bytes.',
 ['inputs','configurations'],'all byte patterns for all integer types x formats x platform configurations',
 'Bytes come from an untrusted link; tests only decode patterns their own encoder produced.',
 [I+'detail/endianess.hpp',I+'detail/signed_representation.hpp',I+'detail/serialization.hpp'],
 [('from_endianess / from_signed_mode','detail/endianess.hpp, detail/signed_representation.hpp')],['upd::tuple_view::get over raw bytes'])
p('C04','Tuples are packed in order, without padding, with independent fields',
 'A tuple stores its fields in declaration order, each at the offset equal to the sum of the sizes of the previous ones, with no padding, and its announced size is the sum of the field sizes. Getting any field returns the last value set for it (a default constructed tuple holds default values), and setting one field changes no byte of any other field; iterating or indexing the tuple exposes exactly these bytes.',
 ['inputs','histories','configurations'],'all field values, all sequences of up to several sets, diverse layouts including fields beyond offset 255',
 'Tests use few layouts and constants; interference between neighbours needs particular values in both.',
 [I+'tuple.hpp',I+'detail/serialization.hpp',I+'detail/type_traits/typelist.hpp'],
 [('sum<clip<sizes_t,0,I>> offsets','tuple.hpp'),('lay / set / get','tuple.hpp')],['tuple::get/set/begin/end/operator[]/size'])
p('C05','Arrays are serialized element by element in order',
 'An array field (C array or std::array, of any length and element type, nested std::array included) is serialized as its elements in index order, each in the declared format and contiguous, occupying length times the element size; reading it back gives equal elements. The C array and std::array forms have identical encodings.',
 ['inputs','configurations'],'all element values for a set of lengths (including > 255 bytes) and element types x formats',
 'Tests use one or two small arrays with constants.',
 [I+'detail/serialization.hpp',I+'detail/type_traits/is_array.hpp',I+'tuple.hpp'],
 [('read_as/write_as array overloads','detail/serialization.hpp'),('normalize','tuple.hpp')],['tuple bytes and get'])
p('C06','User-extended types work everywhere a built-in type does',
 'A type with a user-provided serialization extension occupies exactly the bytes of the members its extension declares, whatever the in-memory size of the type, wherever it is used: tuple field, array element, view over any iterator, callback parameter or return value, key, dispatcher buffers. Its value survives the round trip, neighbours are untouched and every announced size (tuple size, payload length, action sizes, buffer sizes) accounts for that serialized size.',
 ['inputs','programs','configurations'],'all member values for extended types whose serialized size is smaller, equal to or larger than their in-memory size, in every position',
 'Tests have one extended type in one tuple and one key; size mismatches only show with padding or compression and in other positions.',
 [I+'detail/serialization.hpp',I+'tuple.hpp',I+'detail/type_traits/signature.hpp',I+'key.hpp',I+'action.hpp',I+'buffered_dispatcher.hpp'],
 [('upd_extension dispatch','detail/serialization.hpp'),('serialization_size','tuple.hpp'),('parameters_size / return_type_size','detail/type_traits/signature.hpp')],['bytes, get, payload_length, input_size, output_size'])
p('C07','Views read and write exactly the bytes they are bound to',
 'A view bound to a byte sequence through any forward-or-better iterator behaves as a tuple whose storage is that sequence: reads return what the bytes currently encode, writes modify exactly the bytes of the addressed field and nothing else, the view spans exactly its announced size. A view on a slice of a tuple aliases exactly the fields of that slice.',
 ['inputs','histories','configurations'],'all byte contents and values x iterator kinds (pointer, const pointer, list, deque-like, volatile-like wrappers) x all slices',
 'Tests use fixed contents; out-of-slot accesses are invisible when neighbours happen to hold the same bytes.',
 [I+'tuple.hpp',I+'detail/serialization.hpp'],
 [('tuple_view','tuple.hpp'),('tuple::view / make_view','tuple.hpp'),('non-pointer read_as/write_as','detail/serialization.hpp')],['tuple_view get/set, bytes around the bound range'])
p('C08','Assigning between tuples and views converts format, not value',
 'Assigning a tuple or view to a tuple or view of another type with the same field types (different byte order, signed representation or kind of storage) leaves the destination with equal field values in its own format (for values both formats can represent), leaves the source unchanged and touches no other byte.',
 ['inputs','configurations'],'all field values x all pairs of formats x tuple/view combinations',
 'Tests assign once or twice with constants.',
 [I+'tuple.hpp'],[('tuple_base::operator= / lay_tuple','tuple.hpp')],['get on the destination, bytes of source'])
p('C09','Invoking a callback on a tuple passes exactly the stored values',
 'Invoking a callback on a tuple or view calls it exactly once with the stored values in field order (arrays included, however the callback takes its parameters) and returns its result unchanged; the tuple content is not modified.',
 ['inputs','configurations'],'all stored values x callback kinds and arities',
 'Tests use constants and order-insensitive callbacks.',
 [I+'tuple.hpp',I+'detail/type_traits/signature.hpp'],[('tuple_base::invoke / normalize','tuple.hpp')],['recorded arguments, call counts, return value'])
p('C10','A key produces exactly the announced request packet',
 'Calling a key with arguments yields a packet made of the callback\'s index followed by the packed arguments, in the keyring\'s byte order and signed representation, whose length is exactly the announced payload length. Every argument value is represented, in declaration order; nothing else is emitted.',
 ['inputs','configurations'],'all argument values x signatures x formats x positions in the keyring (index widths 1 and 2 bytes)',
 'Tests compare a few constant packets.',
 [I+'key.hpp',I+'keyring.hpp',I+'detail/serialized_message.hpp'],[('key::operator()','key.hpp'),('serialized_message::write_to','detail/serialized_message.hpp')],['bytes written, payload_length'])
p('C11','A key decodes a response to the value the callee returned',
 'For any value returned by a callback, reading the callee\'s response with the corresponding key gives back that value and consumes exactly the bytes of the response (none for void). A hook planned through the key is called exactly once per response with the value(s) the response encodes.',
 ['inputs','configurations'],'all return values / all response bytes x return types x formats x input forms',
 'Tests decode a few constants.',
 [I+'key.hpp',I+'action.hpp'],[('key::read_from','key.hpp'),('key::with_hook','key.hpp')],['read_from result, bytes consumed, hook arguments'])
p('C12','Actions consume and produce exactly what they announce',
 'An action reads exactly its announced input size in bytes, calls its callback exactly once with the values these bytes encode, then writes exactly its announced output size in bytes: the serialized return value (nothing for void; input-only invocation discards it). Storage-owning and reference-only actions over the same callback behave identically.',
 ['inputs','configurations'],'all input bytes x signatures x formats x both action kinds',
 'Tests run constants through one or two signatures.',
 [I+'action.hpp',I+'detail/function_reference.hpp',I+'detail/type_traits/input_tuple.hpp'],[('action_model','action.hpp'),('static_storage_duration_callback_wrapper','action.hpp')],['byte counts, callback arguments, output bytes'])
p('C13','A remote call through a dispatcher equals a local call',
 'For every callback of a keyring and every argument values, sending the key\'s packet to a dispatcher built from the same keyring calls exactly that callback once with exactly these arguments, returns its index, and the response read with the key equals the callback\'s return value (no response bytes for void).',
 ['inputs','histories','configurations'],'all argument and return values x callbacks x formats x sequences of calls x both action policies',
 'Tests call with constants; mis-routed or truncated arguments need particular values or orders of calls.',
 [I+'dispatcher.hpp',I+'key.hpp',I+'action.hpp',I+'keyring.hpp'],[('dispatcher::operator()','dispatcher.hpp'),('get_index','dispatcher.hpp')],['callback arguments, response, returned index'])
p('C14','A packet with an unknown index has no effect',
 'When the received index designates no action, whatever its value, a plain dispatcher consumes only the index, calls nothing, writes nothing, returns that index and yields no action; a buffered dispatcher reports the packet as dropped, calls nothing, keeps its pending output, and treats the next byte as the start of a new packet.',
 ['inputs','histories','configurations'],'all index values >= the number of actions x dispatcher kinds x index widths x pending-output states',
 'Tests try one invalid index in one state.',
 [I+'dispatcher.hpp',I+'buffered_dispatcher.hpp'],[('bound check in dispatcher::operator()/get_action','dispatcher.hpp'),('put: dropped branch','buffered_dispatcher.hpp')],['status, consumed count, callback log, pending output'])
p('C15','Buffered dispatchers frame any byte stream correctly',
 'Feeding any byte stream, in any chunking between byte-wise and whole-packet input, a buffered dispatcher reports loading until a packet is complete, then resolved exactly on its last byte (dropped exactly on the last byte of an unknown index), calls the addressed callback exactly once per resolved packet with the values encoded by that packet\'s bytes, and is then ready for the next packet. The outcome of a packet does not depend on the packets before it.',
 ['inputs','histories','configurations'],'all byte streams up to a bounded length x chunkings x keyrings x single/double buffering x policies',
 'Tests feed one or two valid packets; streams mixing zero-argument, invalid and multi-byte packets are unbounded.',
 [I+'buffered_dispatcher.hpp',I+'dispatcher.hpp'],[('buffered_dispatcher::put / read_from / call','buffered_dispatcher.hpp')],['packet_status sequence, callback log, is_loaded'],
 [dict(name='load count / next positions',meaning='how many bytes are still expected and where the next one goes',where='buffered_dispatcher.hpp')])
p('C16','Each response is drained exactly once, byte for byte',
 'After a resolved packet the pending output is exactly the serialized return value; however it is drained (byte-wise, all at once, or partly one way then the other) each byte comes out once and in order, the dispatcher is loaded exactly while bytes remain, and reading past the end yields no stale byte. A void callback leaves nothing pending; with separate buffers, receiving part of the next request does not disturb the pending response.',
 ['inputs','histories','configurations'],'all return values x drain patterns x interleavings with partial input',
 'Tests drain complete outputs in one pattern.',
 [I+'buffered_dispatcher.hpp'],[('get / write_to / is_loaded','buffered_dispatcher.hpp'),('output reset in call','buffered_dispatcher.hpp')],['bytes out, is_loaded'])
p('C17','Dispatcher buffers are never overrun',
 'For every keyring (in particular returns larger than any parameter list, or the reverse, and payloads above 255 bytes) and every byte history, a buffered dispatcher never reads or writes outside buffers of its announced sizes, and the announced sizes are large enough for every request and every response of the keyring.',
 ['inputs','histories','programs'],'all byte streams up to a bounded length x keyrings with all orderings of parameter and return sizes',
 'Overruns are silent in a normal test run and depend on the shape of the keyring and the stream.',
 [I+'buffered_dispatcher.hpp',I+'detail/type_traits/signature.hpp',I+'detail/type_traits/typelist.hpp'],[('needed_input_buffer_size / needed_output_buffer_size','buffered_dispatcher.hpp')],['memory accesses against the buffers, announced sizes'])
p('C18','Replying forwards the whole pending response or nothing',
 'Replying with a key whose sole parameter is a byte array sends a request packet for that key whose payload starts with the complete pending response and empties the output; it happens if and only if no byte of the response was drained yet and the response fits the array. Otherwise it returns false and writes nothing and changes nothing.',
 ['inputs','histories','configurations'],'all response values x drain states x array sizes (smaller, equal, larger) x formats',
 'Tests reply once with matching sizes.',
 [I+'buffered_dispatcher.hpp',I+'key.hpp'],[('buffered_dispatcher::reply','buffered_dispatcher.hpp')],['bytes sent, return value, is_loaded'])
p('C19','Replacing an action changes that action only',
 'After an action is replaced, by any of the provided ways and at any moment of a session, packets for its index call the new callback and no other index is affected; requests already being received are completed consistently and the wire format is unchanged.',
 ['inputs','histories','configurations'],'all argument values x indices x replacement forms x points of the byte stream at which the replacement happens',
 'Tests replace once between two whole packets.',
 [I+'dispatcher.hpp',I+'buffered_dispatcher.hpp'],[('dispatcher::replace / operator[]','dispatcher.hpp'),('buffered_dispatcher::replace','buffered_dispatcher.hpp')],['callback log per index'])
p('C20','Actions own their callback and destroy it exactly once',
 'An action wraps its own copy (or moved-in instance) of the given callback: later changes to, or the end of life of, the original are not visible through the action, state kept inside the callback persists from one call to the next, moving an action transfers it, and every wrapped instance is destroyed exactly once, with no leak and no double destruction, including when actions are replaced.',
 ['inputs','histories'],'all captured values and arguments x sequences of construct/call/move/replace/destroy',
 'Tests never let the original die or change; leaks and dangling references are silent.',
 [I+'action.hpp',I+'dispatcher.hpp'],[('action constructor / action_model_impl','action.hpp')],['captured values seen by calls, instance counts, allocation balance'])
p('C21','Reference-only dispatching and action calls never allocate',
 'Calling an action never allocates dynamic memory, and neither does constructing, using, replacing in or destroying dispatchers, keys, tuples and views under the weak-reference policy.',
 ['inputs','histories','configurations'],'all inputs x operations of the API outside construction of storage-owning actions',
 'No test counts allocations; an allocation on a rarely taken path is invisible.',
 [I+'action.hpp',I+'dispatcher.hpp',I+'detail/function_reference.hpp',I+'policy.hpp'],[('no_storage_action','action.hpp'),('function_reference','detail/function_reference.hpp')],['allocation count'])
p('C22','All byte-stream forms of an operation are equivalent',
 'Every operation that accepts a byte source or sink gives the same result, consumes and produces the same bytes in the same order whether it is given a functor, a pointer or any suitable iterator, and whether it is spelled as a named member or as a stream operator, on const and non-const objects.',
 ['inputs','configurations'],'all byte contents x overloads of write_to/read_from/>>/<</call on keys, actions, dispatchers, messages',
 'Tests exercise each overload once with constants.',
 [I+'detail/io/immediate_process.hpp',I+'detail/io/immediate_reader.hpp',I+'detail/io/immediate_writer.hpp'],[('immediate_process / immediate_reader / immediate_writer','detail/io')],['bytes and results per overload'])
p('C23','The build configuration never changes the wire format',
 'Whatever combination of declared platform byte order and signed representation (if true of the platform) and language standard is chosen, the same program produces the same bytes, decodes the same values and reports the same sizes.',
 ['inputs','configurations'],'all inputs x {unspecified, declared} platform endianness x {unspecified, declared} signed mode x C++11/C++17',
 'CI compares each configuration with constants only, never configurations with one another, and not the mixed ones.',
 [I+'detail/endianess.hpp',I+'detail/signed_representation.hpp',I+'detail/type_traits/typelist.hpp',I+'upd.hpp'],[('platform_info','upd.hpp'),('platform memcpy fast paths','detail/endianess.hpp, detail/signed_representation.hpp')],['bytes, values and sizes per configuration'])
p('C24','The wire format does not depend on the host byte order',
 'On a host of the opposite byte order, in every valid configuration, the same values give the same bytes and the same bytes give the same values.',
 ['inputs','configurations'],'all values of all integer types x formats x configurations on a big-endian data layout',
 'Every machine that runs the tests is little-endian.',
 [I+'detail/endianess.hpp',I+'detail/signed_representation.hpp'],[('platform memcpy fast paths','detail/endianess.hpp, detail/signed_representation.hpp')],['bytes and values in the IR compiled for a big-endian target'])
p('C25','A callback that throws leaves the dispatcher usable',
 'If a callback throws, the exception propagates unchanged to the code that fed the dispatcher, no response becomes pending for that request, no memory is corrupted or leaked, and the following packets are processed as if by a fresh dispatcher.',
 ['inputs','histories','fault_sequences'],'all inputs x every callback position throwing or not x dispatcher kinds x byte-wise/whole input',
 'No test throws from a callback.',
 [I+'buffered_dispatcher.hpp',I+'action.hpp'],[('buffered_dispatcher::call','buffered_dispatcher.hpp')],['status and callbacks of the packets after the throw'])
p('C26','No uninitialised memory ever reaches the wire or the user',
 'Every byte the library emits, stores in a tuple or passes to a callback is a function of the values given and bytes received: never of uninitialised memory.',
 ['inputs','histories','configurations'],'all inputs x every emitting operation, two runs differing only in uninitialised memory',
 'A stale byte has some value in any test run; comparing with expectations only covers the bytes compared.',
 [I+'buffered_dispatcher.hpp',I+'tuple.hpp',I+'detail/signed_representation.hpp',I+'detail/serialization.hpp'],[('buffers and temporaries','buffered_dispatcher.hpp, tuple.hpp')],['dependence of emitted bytes on uninitialised bytes'])
p('C27','Moving a dispatcher or action preserves the session',
 'Copying or moving a dispatcher (where its policy allows) at any moment, even in the middle of a packet or with a partly drained response, yields a dispatcher that continues exactly as the original would have; copies evolve independently of one another.',
 ['inputs','histories'],'all byte streams up to a bound x every point of the stream at which the move happens',
 'No test moves a dispatcher.',
 [I+'buffered_dispatcher.hpp',I+'dispatcher.hpp',I+'action.hpp'],[('value members only, CRTP-derived buffers','buffered_dispatcher.hpp')],['status, callbacks and output after the move'])
p('C28','Indices are unique, dense, stable and wide enough',
 'In a keyring of any size, the keys have the indices 0 to n-1 in declaration order, the index type is the smallest standard unsigned type that can hold n, both sides agree on it, and each key reaches its own callback.',
 ['inputs','programs','configurations'],'all received index values on keyrings of 1, 2, 255, 256, 257 and 300 callbacks x byte orders',
 'No test has more than a dozen callbacks.',
 [I+'keyring.hpp',I+'detail/type_traits/smallest.hpp',I+'detail/type_traits/typelist.hpp',I+'key.hpp'],[('smallest_unsigned_t','detail/type_traits/smallest.hpp'),('find','detail/type_traits/typelist.hpp')],['key::index, sizeof index_t, callback reached per index'])
p('C29','Python-bound keys and dispatchers speak the same protocol',
 'A key exposed to Python encodes to exactly the packet the C++ key writes, decodes every response to the same value, reports the same index; a dispatcher exposed to Python gives the same statuses, bytes and calls as its C++ counterpart, and replacing the action of a key makes that index, and no other, call the given function with the decoded arguments and answer with its result.',
 ['inputs','histories','configurations'],'all argument values, responses and byte streams up to a bound',
 'The Python tests use one keyring and constants.',
 [I+'python.hpp'],[('define_pykey','python.hpp'),('declare_dispatcher','python.hpp')],['results of the registered methods'])
p('C30','The Python client decodes byte responses and passes others through',
 'Calling a key through a client sends exactly one request, carrying that key\'s encoding of exactly these arguments, and returns the key\'s decoding of the response when the response is a byte string (any byte string, the empty one included) or the response object itself, untouched, otherwise.',
 ['inputs'],'all argument lists up to a bounded length, all byte-string responses and any other response',
 'The client is used with two constants in the tests.',
 ['py/unpadded/client.py'],[('Client.call','py/unpadded/client.py')],['payload given to new_request, returned value'])
p('C31','Ill-typed uses are rejected at compile time',
 'Uses outside the contract (out-of-range index, signature mismatch on replacement, non-serializable or qualified field type, non-invocable callback, weak-reference policy with a callback that needs storage) do not compile.',
 ['programs'],'all programs misusing the API',
 'Only a few such programs could ever be sampled.',
 [I+'detail/static_error.hpp',I+'tuple.hpp',I+'dispatcher.hpp'],[('static_assert / SFINAE failure members','detail/static_error.hpp')],['compiler verdict'])
p('C32','All dispatcher kinds answer the same stream identically',
 'Given the same keyring, initial state and byte stream, plain, single-buffered and double-buffered dispatchers, under either policy, make the same calls with the same arguments and produce the same response bytes, and a user-defined buffered dispatcher with its own storage does too.',
 ['inputs','histories','configurations'],'all byte streams up to a bounded length x kinds x policies',
 'Each kind is tested on its own with constants.',
 [I+'dispatcher.hpp',I+'buffered_dispatcher.hpp'],[('buffered_dispatcher over dispatcher','buffered_dispatcher.hpp')],['call logs and outputs'])
p('C33','The Python import hook builds importable extensions',
 'Importing a module whose source opts in compiles it against the bundled headers and any extra include directories given, and yields the module; modules that do not opt in are left to the other importers.',
 ['inputs','configurations'],'all module names and include directory lists',
 'One module is imported in the tests.',
 ['py/unpadded/hook.py'],[('Hook.find_spec','py/unpadded/hook.py')],['import results'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), [x['title'] for x in P if len(x['title'])>80])
