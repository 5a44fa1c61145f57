#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements, anchors and ids stay reviewable)."""
import json, os
P = []

def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)

PY = 'pyee/pyexec/'

prop('C01', 'Contract storage collections behave as a variable, a map and a list',
     'Whatever sequence of operations a contract performs on its variables, (nested) dictionaries and arrays, in one '
     'invocation or spread over many, every read returns what a plain typed variable, map or list would hold at that '
     'point (type defaults for missing entries, membership, negative indices, pop order, lengths), and invalid accesses '
     '(index out of range, non-integer index, unsupported or missing keys and values, writing through a dictionary of the '
     'wrong depth, iterating a dictionary) fail with the documented contract failure and change nothing. '
     'Collections of different kind or name, and the same collection of different contract addresses, never influence each other.',
     ['histories', 'inputs'],
     'all operation sequences up to a depth over small key/value alphabets of every supported type, with every placement of invocation boundaries',
     'test_container_db runs one fixed happy-path sequence per collection against a dict; sequences that interleave collections, boundary values, negative indices and persistence over invocations are not reached.',
     [PY+'iconscore/icon_container_db.py', PY+'database/db.py', PY+'database/factory.py', PY+'ipc/proxy.py'],
     [('VarDB/DictDB/ArrayDB', PY+'iconscore/icon_container_db.py'), ('IconScoreDatabase sub-databases', PY+'database/db.py')],
     [('store', 'key-value store of the contract account, held by the node', 'service/state/account.go')],
     ['values returned to the contract', 'GETVALUE/SETVALUE/CONTAINS messages'])

prop('C02', 'Storage keys are canonical and injective',
     'Each entry of a contract collection is stored under the 32-byte SHA3-256 of its type tag followed by the '
     'length-prefixed (RLP string) encodings of the collection name and of every key on the path to the entry, which is '
     'the layout the node itself and existing chain state use. '
     'Distinct (collection kind, name, key path) triples whose components differ as bytes never share a storage key.',
     ['inputs'],
     'all collection kinds, names and key paths over an alphabet containing the length-prefix boundaries (empty, 0x00, 0x7f, 0x80, 55/56/255/256/65535/65536 bytes) and components that concatenate ambiguously',
     'Tests only use short distinct names; a changed prefix boundary or a dropped prefix keeps every read-after-write test green while forking from existing state.',
     [PY+'database/db.py', PY+'iconscore/icon_container_db.py', 'common/containerdb'],
     [('key hashing', PY+'database/db.py:_hash_key'), ('rlp string encoding', PY+'database/db.py:rlp_encode_bytes')],
     None, ['keys in GETVALUE/SETVALUE/CONTAINS messages'])

prop('C03', 'Typed values survive storage and the node protocol unchanged',
     'Integers are encoded as minimal big-endian two\'s-complement byte strings and every value of the types null, int, bool, str, bytes, '
     'address, list and string-keyed map that crosses the protocol between node and contract - as argument, result, '
     'transaction information or nested-call parameter - arrives equal and with the same type, at any nesting. '
     'A value stored in a collection of a type reads back equal, and values with no protocol representation are refused '
     'as a failed call instead of being altered.',
     ['inputs'],
     'all values over boundary integers (every byte-length boundary up to 2^520, both signs), strings, bytes, addresses and all nested lists/maps of bounded depth and width',
     'Two unit tests check a few integers; bool-as-int confusion, sign boundaries, nested containers and non-ASCII text are not covered.',
     [PY+'ipc/proxy.py', PY+'pyexec.py', PY+'utils/__init__.py', PY+'iconscore/icon_container_db.py', 'common/intconv/bigint.go'],
     [('encode_any/decode_any', PY+'ipc/proxy.py'), ('int_to_bytes/bytes_to_int', PY+'utils/__init__.py')],
     None, ['INVOKE arguments seen by the contract', 'RESULT, CALL, EVENT and SETVALUE payloads'])

prop('C04', 'Step accounting is exact, bounded by the limit and schedule independent',
     'The steps an invocation reports equal the sum, under the step price table it was given, of the costs of every storage read, '
     'write, replacement, deletion, membership search, event log, built-in call and nested call it performed, regardless of how storage '
     'acknowledgements are batched or delayed (writes and deletions are charged when acknowledged, at the latest at the end of the call). '
     'If that running total never exceeds the given limit the invocation is not failed for steps; if the final total '
     'exceeds the limit it fails with the out-of-step status, unless the contract itself swallowed the failure, and the reported steps never exceed the limit. '
     '(An invocation whose result has no protocol representation fails and is charged its whole limit.)',
     ['histories', 'inputs', 'configurations'],
     'all operation sequences up to a depth over both price-table schemas, all initial store contents of a small alphabet, and every step limit from 0 to beyond the total',
     'test_step_counter drives the counter object directly with one sequence per schema; deferred charges, refunds, the fallback path near the limit and the pending-acknowledgement window are never combined.',
     [PY+'iconscore/icon_score_step.py', PY+'database/db.py', PY+'ipc/proxy.py', PY+'service_engine.py', PY+'iconscore/icon_score_eventlog.py', PY+'iconscore/internal_call.py'],
     [('IconScoreStepCounter', PY+'iconscore/icon_score_step.py'), ('pending SETVALUE handlers', PY+'ipc/proxy.py'), ('flush before RESULT', PY+'service_engine.py')],
     [('step_used', 'steps charged so far in the invocation', PY+'iconscore/icon_score_step.py'), ('set_handlers', 'charges awaiting the old-value acknowledgement', PY+'ipc/proxy.py')],
     ['status and step_used of RESULT'])

prop('C05', 'Every request is answered once and no contract can take the engine down',
     'For every invocation or API request, whatever the contract code does - return anything, raise any exception, run out of steps '
     'at any point, recurse, fail while being loaded or constructed, leave unacknowledged writes - the execution engine sends exactly one '
     'answer for that request, keeps the message stream in step and continues serving. '
     'An invocation behaves exactly as it would on a freshly started engine: no engine state of a finished (successful or failed) call influences a later or enclosing one.',
     ['programs', 'histories', 'inputs'],
     'all sequences of requests up to a depth over a menu of well-behaved and misbehaving contracts, every step limit, failures at every nesting level',
     'No test runs the engine loop at all; an exception on a path outside the per-call handler ends the process and the node sees a closed connection.',
     [PY+'service_engine.py', PY+'ipc/proxy.py', PY+'pyexec.py', 'service/eeproxy/proxy.go'],
     [('invoke/_handle_invoke', PY+'service_engine.py'), ('loop and __handle_invoke', PY+'ipc/proxy.py')],
     [('context stack', 'active invocation contexts', PY+'iconscore/icon_score_context.py')],
     ['message stream between engine and node', 'engine process termination'])

prop('C06', 'Replies are matched to requests under any fragmentation and batching',
     'However the byte stream from the node is split into reads, and however many acknowledgements of writes are outstanding, each query of a contract '
     '(storage read, balance, membership, nested call result) receives the answer to that query, and each write acknowledgement is '
     'accounted to that write, in order. '
     'Messages from engine to node are complete and well formed, and the engine connects, announces its version and identifier first, and stops when told to close.',
     ['schedules', 'inputs'],
     'all fragmentations of the reply stream into reads (every cut for short streams, every uniform chunk size for longer ones) combined with all short operation sequences with up to 8 outstanding writes',
     'The transport has no test; a reply attributed to the wrong request only shows with several outstanding writes or split frames.',
     [PY+'ipc/client.py', PY+'ipc/proxy.py', PY+'__main__.py'],
     [('streaming unpacker', PY+'ipc/client.py'), ('outstanding write handlers', PY+'ipc/proxy.py')],
     None, ['replies delivered to contract code', 'messages sent'])

prop('C07', 'Nested calls run in their own context and restore the caller context',
     'During an invocation the contract sees exactly the caller, value, own address, owner, transaction, block, revision and step budget '
     'of that invocation, at every depth of nested and re-entrant calls. '
     'When a nested call ends - by success, failure, out of steps or an arbitrary exception - the caller continues with its own values, '
     'and is charged exactly what the callee reported.',
     ['programs', 'histories'],
     'all call trees up to a bounded depth and fan-out over two contracts, with every combination of outcome per node and observation of the context before and after each call',
     'No test has a nested call; a context leak is only visible to the code that runs after a callee returned.',
     [PY+'iconscore/icon_score_context.py', PY+'service_engine.py', PY+'iconscore/internal_call.py', PY+'iconscore/icon_score_base.py', PY+'pyexec.py'],
     [('context push/pop', PY+'service_engine.py'), ('message_call', PY+'iconscore/internal_call.py')],
     [('context stack', 'thread-local stack of invocation contexts', PY+'iconscore/icon_score_context.py')],
     ['properties read by contract code', 'CALL limits', 'RESULT steps'])

prop('C08', 'Read-only execution never changes anything',
     'While an invocation is flagged read-only by the node, or the invoked method is declared read-only, no storage write or deletion, '
     'no event and no fee-sharing change leaves the engine, at any nesting depth and even if the contract swallows the errors; '
     'attempting a write or an event there fails with the documented status (while a contract is being constructed only the flag of the node counts). '
     'After a nested read-only call returns, a writable caller can write again, and vice versa a read-only caller stays read-only.',
     ['programs', 'histories'],
     'all operation sequences and call trees of bounded depth over {read-only flag, read-only method, writable} x {write, delete, event, fee, swallow, nested call}',
     'Needs nesting and error swallowing; the tests never execute a read-only method.',
     [PY+'ipc/proxy.py', PY+'database/db.py', PY+'iconscore/icon_score_eventlog.py', PY+'iconscore/icon_score_base.py'],
     [('read-only stack', PY+'ipc/proxy.py'), ('context type/function type checks', PY+'database/db.py')],
     [('readonly', 'current read-only mode of the proxy', PY+'ipc/proxy.py')],
     ['SETVALUE/EVENT/SETFEEPCT messages'])

prop('C09', 'Only exposed methods are callable and value needs a payable method',
     'A call executes contract code only if the named method is declared external, or is the install/update hook, or is the default method '
     'of a contract that declares it payable; any other name - helpers, inherited internals, event declarations, special names - '
     'fails as method-not-found without running contract code. '
     'A call carrying a positive amount runs only a payable method and otherwise fails as not payable.',
     ['inputs', 'programs'],
     'all method names of several contracts (every attribute reachable on the instance plus absent and odd names) x value in {0, 1} x all decorator combinations',
     'No test calls through the dispatch path.',
     [PY+'iconscore/icon_score_base.py', PY+'iconscore/typing/element.py', PY+'service_engine.py'],
     [('__call/__validate_external_method/__check_payable', PY+'iconscore/icon_score_base.py'), ('element metadata', PY+'iconscore/typing/element.py')],
     None, ['RESULT status', 'contract code execution'])

prop('C10', 'The published API describes the contract exactly',
     'The API description of an acceptable contract lists exactly its external methods, install/update hooks, payable default '
     'method and events, each with the declared parameter names, order, types (nested lists and structures included), the number of mandatory parameters, '
     'encoded default values, outputs of read-only methods, and read-only/payable/external flags and indexed counts. '
     'Contracts with declarations outside the supported set (unsupported types, conflicting decorators, wrong defaults, bad default method, no external method) are refused with a failure status.',
     ['programs'],
     'all contracts generated from a grammar of decorators, parameter lists up to 3, type hints of bounded depth, defaults and return hints',
     'No test requests an API; the encoder has interacting flags, optional counts and nested structure fields.',
     [PY+'iconscore/typing/definition.py', PY+'iconscore/typing/element.py', PY+'pyexec.py', PY+'ipc/proxy.py', PY+'iconscore/icon_score_base.py'],
     [('get_score_api', PY+'iconscore/typing/definition.py'), ('convert_inputs/APIInfo', PY+'pyexec.py')],
     None, ['GETAPI reply'])

prop('C11', 'Keyword arguments are converted by the declared parameter types',
     'When a call supplies its arguments by name as text, each is converted to the type the method declares for it - decimal or 0x-hexadecimal integers, booleans from '
     'integers, hexadecimal bytes with or without prefix, textual addresses, text as is - unconverted if there is no declared type, omitted optional parameters take their default, and any '
     'malformed value, unknown or missing argument fails the call without running the method. '
     'Positional arguments are passed unchanged in order.',
     ['inputs'],
     'all assignments of a menu of textual values (valid, boundary, malformed) to parameters of every type, with omitted/extra/null arguments',
     'No test covers argument conversion.',
     [PY+'service_engine.py', PY+'base/type_converter.py'],
     [('_convert_score_params_by_annotations', PY+'service_engine.py'), ('TypeConverter', PY+'base/type_converter.py')],
     None, ['arguments observed by the method', 'RESULT status'])

prop('C12', 'Addresses have one identity across text, bytes and hashing',
     'Text (hx/cx plus 40 lowercase hex digits) and 21-byte forms of addresses convert to each other without loss, 20 raw bytes mean an account address, '
     'equality, hashing, contract-ness and printed form agree with kind and body, and every malformed text (length, prefix, case, non-hex, whitespace) is rejected as an invalid parameter. '
     'Kind and body of any two addresses that compare equal are equal.',
     ['inputs'],
     'all kinds x a body alphabet with every byte position exercised, and all one-character mutations of a valid text from an alphabet of confusable characters, all byte lengths 0..42',
     'There is no address test.',
     [PY+'base/address.py', PY+'utils/__init__.py'],
     [('Address', PY+'base/address.py')], None, ['Address API', 'addresses in messages'])

prop('C13', 'Event logs carry exactly the declared signature, indexing and data',
     'Each event a writable contract call emits reaches the node once, in program order, as signature name(types) followed by the first N indexed arguments and then the remaining data in '
     'declaration order, each in its canonical byte encoding with null for absent values, whichever mix of positional, keyword and default arguments was used. '
     'Wrong argument counts, types, duplicates or the reserved transfer signature fail the call, and illegal declarations (more than 3 indexed, more indexed than parameters, missing or unsupported hints, no self) fail at load.',
     ['inputs', 'programs'],
     'all event declarations of up to 4 parameters over the supported types and indexed counts, and all argument-passing shapes over a boundary value alphabet',
     'No test emits an event.',
     [PY+'iconscore/icon_score_base.py', PY+'iconscore/icon_score_eventlog.py', PY+'ipc/proxy.py'],
     [('eventlog decorator', PY+'iconscore/icon_score_base.py'), ('EventLogEmitter', PY+'iconscore/icon_score_eventlog.py')],
     None, ['EVENT messages', 'RESULT status'])

prop('C14', 'Failures keep their status code and message through every call level',
     'A contract that reverts with code n reports failure status 32+n clamped into 32..999 with the given message, each engine-detected '
     'error reports its own documented status, and any other exception reports the system error status. '
     'A failure of a nested call surfaces in the caller as a catchable failure carrying the same status and message; uncaught, it becomes the caller\'s own outcome, caught, the caller can still succeed.',
     ['inputs', 'programs'],
     'all revert codes around every boundary (and non-integer codes/messages), every exception kind, propagated through call chains of depth 1..3 with catch at every level or none, and every status 0..1100 answered by the node',
     'No test observes a status.',
     [PY+'base/exception.py', PY+'service_engine.py', PY+'iconscore/internal_call.py', PY+'iconscore/icon_score_base2.py'],
     [('IconScoreException clamp', PY+'base/exception.py'), ('_get_status_from_exception', PY+'service_engine.py'), ('IconServiceBaseException.create', PY+'base/exception.py')],
     None, ['RESULT status and message', 'exception seen by the caller'])

prop('C15', 'The package validator admits only whitelisted imports and calls',
     'With package verification on, a contract package in which any module imports something outside the allowed list (at any '
     'position: nested functions, classes, conditionals, aliases, sub-modules, large modules, files of sub-packages) or uses a forbidden name is refused before any of its code runs, and '
     'packages that only import allowed modules and their own modules are accepted.',
     ['programs'],
     'all import forms x placements x module sizes in packages of bounded shape, for every allowed module and a list of forbidden modules and names',
     'The validator has no test and works on byte code, so size-dependent encodings matter.',
     [PY+'iconscore/score_package_validator.py', PY+'service_engine.py'],
     [('ScorePackageValidator', PY+'iconscore/score_package_validator.py')], None, ['GETAPI status'])

prop('C16', 'Built-in functions compute the standard result and charge for it',
     'SHA3-256, SHA-256, JSON encode/decode, public-key recovery and address derivation return exactly the standard result for every input, return null (never a wrong value) for '
     'malformed input where documented, and charge the documented number of steps as a function of the input size, the price table and the revision. '
     'When the steps do not suffice the call fails as out of step.',
     ['inputs', 'configurations'],
     'all input sizes across every charging boundary, all malformed-key shapes, both revisions of the JSON rule and all limits around the charge',
     'Tests cover a handful of inputs with one price.',
     [PY+'iconscore/icon_score_base2.py'],
     [('_hash/json_*/recover_key/create_address_with_key', PY+'iconscore/icon_score_base2.py')], None, ['returned values', 'RESULT steps'])

prop('C17', 'An outcome depends only on the request, the contract code and the state',
     'The status, steps, result, writes, events and nested calls of an invocation are a function of the request, the contract code and the '
     'replies of the node only. They are the same for every log level and trace setting, hash seed, locale, working directory, read '
     'chunking and optimisation level of the engine process, and whatever the engine has loaded or executed before, including contracts that '
     'run near the end of the call stack or whose objects run code when they are printed, compared or hashed.',
     ['configurations', 'histories', 'programs'],
     'all combinations of a request menu with every log level, verification flag, hash seed, chunking and menu order; all recursion depths in a window around the stack limit for every engine operation; objects with side effects at every place a value is accepted',
     'Every node must compute the same outcome (consensus), while each test runs one configuration in one fresh process.',
     [PY+'logger/logger.py', PY+'service_engine.py', PY+'__main__.py', PY+'ipc/proxy.py', PY+'iconscore/icon_score_loader.py', PY+'utils/stack.py'],
     [('Logger', PY+'logger/logger.py'), ('stack reservation', PY+'utils/stack.py'), ('lazy loading', PY+'iconscore/icon_score_mapper.py')],
     None, ['RESULT', 'SETVALUE/EVENT/CALL messages'])

prop('C18', 'A contract instance is fresh per call and bound to its code and address',
     'Every invocation runs on a newly constructed instance of the main class named by the package of the given code path, with the storage, address and owner of the invoked contract; '
     'instance attributes never survive an invocation, and the same code used by two addresses, or different packages whose files have the same names, never exchange code or state. '
     'Missing paths, malformed or incomplete package descriptions and broken modules fail only that request; once the package is available the same path works.',
     ['histories', 'programs'],
     'all sequences up to a depth of invoke/API requests over several code paths and addresses, including broken packages, packages appearing later, and instance mutation',
     'The loader and the class cache are never exercised by tests.',
     [PY+'iconscore/icon_score_loader.py', PY+'iconscore/icon_score_mapper.py', PY+'service_engine.py', PY+'database/factory.py'],
     [('IconScoreMapper cache', PY+'iconscore/icon_score_mapper.py'), ('IconScoreLoader', PY+'iconscore/icon_score_loader.py')],
     [('mapper objects', 'class cache by code path hash', PY+'iconscore/icon_score_mapper.py')],
     ['RESULT', 'GETAPI reply'])

prop('C19', 'Inter-contract calls carry target, value, method and arguments faithfully',
     'Each nested call or coin transfer a contract makes produces exactly one request to the node with the given target, amount, method (empty for the default method) and arguments (positional, keyword or both), and hands over '
     'all remaining steps as limit; an amount attached to an interface call is used for that one call only. '
     'transfer raises on failure, send returns whether it succeeded, results are returned unchanged, and a callee reporting more steps than its limit is charged only the limit and treated as a failure.',
     ['inputs', 'programs'],
     'all combinations of call style (call, interface, transfer, send), amount, method, argument shape, reply status and reported steps, and all sequences of up to 3 interface uses',
     'No test makes a call.',
     [PY+'iconscore/internal_call.py', PY+'iconscore/icon_score_base.py', PY+'iconscore/icon_score_base2.py', PY+'ipc/proxy.py'],
     [('message_call', PY+'iconscore/internal_call.py'), ('interface decorator', PY+'iconscore/icon_score_base.py'), ('Icx', PY+'iconscore/icon_score_base2.py')],
     None, ['CALL messages', 'returned values'])

prop('C20', 'Fee-sharing proportion is validated and reported for its own call only',
     'A contract call that sets a fee-sharing proportion between 0 and 100 reports the last value set, once, for that call before its result; values outside the range or setting it in read-only mode '
     'fail the operation, and the proportion set in a call is not visible to, nor reported for, any other call.',
     ['histories', 'inputs'],
     'all sequences of up to 3 settings over boundary values in a call tree of two contracts, including read-only and failing calls',
     'Not tested.',
     [PY+'iconscore/icon_score_base.py', PY+'service_engine.py', PY+'ipc/proxy.py'],
     [('set_fee_sharing_proportion', PY+'iconscore/icon_score_base.py'), ('report at end of invocation', PY+'service_engine.py')],
     None, ['SETFEEPCT messages'])

try:
    import gen_properties_go  # noqa
    gen_properties_go.add(prop)
except ImportError:
    pass

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
