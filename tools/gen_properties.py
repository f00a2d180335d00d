import json
B="include/boost/safe_numerics/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f if not f.startswith(('doc','ex','test')) else f for f in files],mechanism=[dict(name=a,where=B+b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=B+c) for a,b,c in state]
    P.append(d)

p("C01","Safe objects and safe results never leave their declared range",
"Under an exception policy that throws on arithmetic errors, every initialised safe object and every safe temporary returned by an operator holds, at every point of every history, a value inside the range its own type declares (what numeric_limits min() and max() report for it). This includes the state seen after a failed assignment, a failed compound operation, a failed increment or a failed stream extraction.",
["histories","inputs","fault_sequences"],
"All finite histories of construction, conversion, assignment, arithmetic, shift, bitwise, increment and stream operations over safe types of every width, sign and sub-range and under every promotion policy, with arithmetic errors, allocation failures and stream device faults at any step.",
"Unit tests check single operations on a dozen sample values of fresh objects; they never carry one object through a sequence of failing and succeeding operations and never look at the declared range of a result.",
["safe_base.hpp","safe_base_operations.hpp","interval.hpp","checked_integer.hpp"],
[("validated construction and assignment","safe_base_operations.hpp: safe_base::validated_cast / validate_detail"),("result range computed by interval arithmetic","safe_base_operations.hpp: *_result::type; interval.hpp"),("stream extraction validates before storing","safe_base_operations.hpp: safe_base::input")],
["object value after every step","numeric_limits of the result type of every operator"],
[("m_t","the stored value","safe_base.hpp: safe_base")])

p("C02","A failed operation changes nothing (strong exception guarantee)",
"When any operation on safe objects exits by an exception, whatever its origin (a reported arithmetic error, memory exhausted while the report is being raised, an exception of a user-written handler, a stream or device exception), every safe object has exactly the value it had before the operation began. The same operation sequence can then be continued as if the failed operation had never been issued.",
["histories","fault_sequences","crash_points"],
"Every operation kind that can modify an object (construct-over, assign, compound assign, pre/post increment and decrement, extraction), every point of failure inside it, aliased operands included, at any position of a history.",
"The tests check that an exception is thrown, never what the operands hold afterwards, and no test injects memory exhaustion, a foreign exception or a failing device.",
["safe_base.hpp","safe_base_operations.hpp","exception_policies.hpp"],
[("compute, validate, then store","safe_base.hpp: operator=, operator++/--; safe_base_operations.hpp: operator op=, input")],
["all objects of the simulated client, bit for bit, before and after each failing step"])

p("C03","Every operation that completes has produced the exact arithmetic value",
"Under an exception policy that reports arithmetic errors by throwing, an arithmetic, shift, comparison, conversion or increment operation with at least one safe operand either produces exactly the value of ordinary integer mathematics (truncating division, remainder with the sign of the dividend, shifts as multiplication and division by powers of two, comparisons of the mathematical values; bitwise operators as the built-in ones) or is reported as an error. It never completes with a wrapped, truncated or otherwise wrong value, and it modifies no object other than its target.",
["histories","inputs","configurations","fault_sequences"],
"All operand values of all pairs of built-in and safe operand types (full range and sub-range), under the native, automatic and fixed-width promotion policies, in histories where results are stored and reused, interrupted by failing operations.",
"The test matrix covers a few boundary values of fresh full-range objects per pair of types; it does not cover sub-range operands, carried-over values, compound assignment between different types, or histories with errors in between.",
["safe_base_operations.hpp","checked_integer.hpp","safe_compare.hpp","automatic.hpp","native.hpp","cpp.hpp","interval.hpp","utility.hpp"],
[("checked primitive operations","checked_integer.hpp: checked_operation, heterogeneous_checked_operation"),("elision of checks when the result interval proves them unnecessary","safe_base_operations.hpp: *_result::exception_possible"),("value-correct comparison of mixed signs","safe_compare.hpp"),("result type selection","native.hpp, automatic.hpp, cpp.hpp")],
["value of the result and of every object, against an exact integer model after each step"])

p("C04","Representable results are never rejected and errors leave no after-effects",
"An operation whose operands convert to its result type without loss, and whose exact result that type (and the target of the assignment) can hold, completes without any error report, regardless of which errors, faults or memory exhaustion preceded it or are present while it runs. In particular under the automatic policy no operation whose exact result fits the widest integer type of the appropriate signedness is reported. Excluded are shifts by an amount that reaches or exceeds the number of value bits of the result type, which are reported as too large whatever the value shifted.",
["histories","inputs","configurations","fault_sequences"],
"All operand values and type pairs as in C03; memory exhausted before and during the operation; any prefix history of reported errors, handler exceptions and stream faults (progress: the first retry after the fault clears succeeds).",
"The tests count unexpected exceptions on sample values of fresh objects only; nothing exercises success right after failures or under exhausted memory, where a check that wrongly fires or an allocation on the success path would surface.",
["safe_base_operations.hpp","checked_integer.hpp","safe_compare.hpp","automatic.hpp","interval.hpp","utility.hpp"],
[("error predicates exactly delimit the failing operands","checked_integer.hpp: add/subtract/multiply/divide/modulus/left_shift/right_shift"),("allocation-free success path","safe_base_operations.hpp")],
["outcome of every step, against the exact model's must-succeed verdict"])

p("C05","Each error reaches the handler for its class exactly once, with its own code",
"With a user-supplied exception policy, an operation that fails invokes the handler of the error's documented class (arithmetic error, implementation-defined behaviour, uninitialised value) once, with an error code that matches the failure (overflow direction, domain, shift) and a non-empty message, and invokes no handler when it succeeds. Whatever the handler throws leaves the operation unchanged in type and content, and a handler may itself use safe operations that fail, without disturbing the report in progress.",
["histories","inputs","fault_sequences"],
"All failing operations over all operand types; handlers that throw library or foreign exceptions, allocate, or re-enter the library (nested to any depth the plan chooses) at any step.",
"Tests use the ready-made policies and only look at whether something was thrown; no test has a handler that throws its own type, fails while handling, or re-enters the library.",
["exception_policies.hpp","safe_base_operations.hpp","checked_integer.hpp","exception.hpp"],
[("code to class mapping","exception_policies.hpp: make_safe_numerics_action"),("dispatch","safe_base_operations.hpp: dispatch_switch, dispatch, dispatch_and_return")],
["log of the handlers' invocations (class, code, message) and the exception that leaves the operation"])

p("C06","The exception thrown by the throwing policies identifies the error, everywhere",
"With the ready-made throwing policies an error surfaces as std::system_error whose code equals the corresponding safe-numerics error code, belongs to the documented error group and to no other, has a category name and message that describe it, and whose what() contains the message; this holds in whatever translation unit the exception is caught or compared, however deeply errors nest, and after it is copied or rethrown. If memory runs out while the report is being raised, what surfaces is std::bad_alloc or that same complete system_error, never a silent continuation or termination.",
["histories","fault_sequences","configurations"],
"Every error code any operation can raise; allocation failing at the n-th allocation of the report, once or persistently; throw, catch, compare and rethrow split over several separately compiled units.",
"Tests catch the exception in the unit that threw it and ignore its content; none allocates unsuccessfully and none links two units.",
["exception.hpp","exception_policies.hpp"],
[("error category and conditions","exception.hpp: safe_numerics_error_category, safe_numerics_actions_category"),("throwing handler","exception_policies.hpp: throw_exception")],
["caught exception: type, code, category, condition equivalences, message"])

p("C07","Stream input yields the exact value or a report with the target untouched",
"Extracting a safe object from an input stream stores exactly the integer denoted by the text the built-in extraction would accept, if it lies in the object's range; every other outcome (malformed or negative text where not representable, out-of-range value, end of input, device error, device exception) is reported through the exception policy or as the stream's own exception and leaves the object unchanged. The outcome depends only on the characters and faults delivered, not on how the device slices them into buffers.",
["inputs","fault_sequences","histories","configurations"],
"All texts; all ways of splitting them over device reads; end of input, failing, transiently failing and throwing devices at every character position; all number bases, stream exception masks, narrow and wide streams; every safe type.",
"Two tests and one example read a handful of well-formed strings from string streams, which never fail, never return short and never throw.",
["safe_base_operations.hpp","safe_base.hpp"],
[("extraction and validation","safe_base_operations.hpp: safe_base::input")],
["target value, exception, stream state after each extraction"])

p("C08","Stream output emits the value's digits or fails exactly as built-in output does",
"Inserting a safe object or safe literal into an output stream emits the same characters, honours and leaves the same formatting state, and ends in the same stream state or exception as inserting the built-in integer of the same value (character types of every width being written as numbers), for any device behaviour. Bytes accepted by a failing device are always a prefix of the fault-free rendering, and the object is never modified.",
["inputs","fault_sequences","configurations"],
"All values of all safe types; all formatting flags, widths, fills and number-punctuation locales; devices that accept only part of the data, fail, recover or throw at every position; all exception masks; narrow and wide streams.",
"Tests only print in passing to standard output or to string streams that cannot fail.",
["safe_base_operations.hpp","safe_base.hpp"],
[("insertion","safe_base_operations.hpp: safe_base::output")],
["bytes accepted by the device, stream state and flags, compared with built-in insertion on an identical simulated device"])

p("C09","A value written to a stream reads back as the same value",
"Writing safe objects to a stream and reading them back, with the same stream configuration and through any fault-free but arbitrarily fragmenting device, restores every value exactly, for every safe type and value, including character-sized types and separators of any whitespace. If the stored text was cut short or damaged by a fault, reading it back never silently yields a value the remaining text does not denote.",
["histories","inputs","fault_sequences","configurations"],
"All sequences of values of mixed safe types in one stream; all number bases; torn writes at any byte; every fragmentation.",
"No test writes a safe value and reads it back.",
["safe_base_operations.hpp"],
[("insertion and extraction are inverse","safe_base_operations.hpp: output, input")],
["values read back versus values written"])

p("C10","Threads using different safe objects never influence each other",
"Operations performed by one thread on its own safe objects (and on shared constant ones) give the results, error reports, exceptions and stream effects they give when that thread runs alone, for every interleaving with other threads that do the same, down to switches in the middle of an operation, of error reporting or of a stream transfer. No operation relies on hidden mutable state shared between threads.",
["schedules","histories","fault_sequences"],
"All interleavings of two to four clients, with switches between and inside operations (memory accesses, allocations, handlers, device calls), with errors and faults in flight in several threads at once.",
"All tests are single threaded.",
["safe_base_operations.hpp","exception.hpp","exception_policies.hpp","checked_result.hpp"],
[("no mutable global or static state","whole library; error categories in exception.hpp")],
["per-client trace under the schedule versus the same client's solo trace"])

p("C11","Operations neither leak nor allocate on success",
"Over any history, including failed operations, failed error reports and failed stream transfers, the library retains no memory once the caught exceptions are destroyed, and an arithmetic, conversion or comparison operation that succeeds performs no dynamic allocation at all. The same holds for chains of nested errors raised inside handlers.",
["histories","fault_sequences"],
"All histories as in C02 to C06, with allocation failure injected at any allocation.",
"No test counts allocations or injects failures.",
["exception_policies.hpp","exception.hpp","safe_base_operations.hpp"],
[("no owning state in any library type","safe_base.hpp, checked_result.hpp"),("report owns its message","exception_policies.hpp: throw_exception")],
["allocator ledger around every step"])

p("C12","After an input error the stream is exactly where built-in input would leave it",
"An extraction into a safe object consumes exactly the characters that built-in extraction of the same integer type (of int for character-sized types, which are read as numbers) consumes and leaves the same stream state, except that negative text for an unsigned type other than a character-sized one is rejected before its sign is consumed and sets the failure flag. Therefore a program that clears the error, skips the offending token and continues reads all later tokens correctly (no token lost, duplicated or shifted).",
["histories","inputs","fault_sequences"],
"All token sequences mixing valid, malformed, negative and out-of-range tokens, all recovery actions (clear, skip a character, skip to whitespace, retry), all fragmentations, transient end-of-input and device errors at any position.",
"No test reads a second token after an error.",
["safe_base_operations.hpp"],
[("extraction","safe_base_operations.hpp: safe_base::input")],
["device read position and stream state after every extraction versus built-in extraction on an identical device"])

p("C13","With handlers that return, operations degrade to the built-in behaviour",
"When the exception policy's handler returns instead of throwing (the ignore and logging handlers of the documentation), the operation completes with the value the corresponding built-in operation and conversion would have produced (wrapping where the built-in wraps), each problem is reported once, and the history continues normally. The value never depends on addresses, earlier operations or anything but the operands. (It is specified where the built-in operation is defined and the operands are within their declared ranges; an object that left its range because a handler returned may be compared according to its declared range, and a consequential error met while storing an already reported result may or may not be reported again; of an expression of several operations at least the first problem is reported; a comparison which the declared ranges decide is answered exactly.)",
["histories","inputs","fault_sequences"],
"All failing operations whose built-in counterpart is defined on the platform (two's complement wrap; division by zero and out-of-width shifts excluded), with the handler choosing to return or to throw independently at every report.",
"Tests with the ignoring policy exist only for the uninitialised-value and shift classes and do not check resulting values.",
["safe_base_operations.hpp","exception_policies.hpp","checked_result.hpp","checked_integer.hpp"],
[("fallback expressions after a report that returned","safe_base_operations.hpp: *_result::return_value, casting_helper, validate_detail")],
["value after the step and handler log versus built-in evaluation of the same step"])

p("C14","An expression of several operations is exact end to end",
"A compound expression whose intermediate results are safe temporaries (with whatever types the promotion policy gave them) either evaluates to exactly the value of the whole expression in integer mathematics or reports an error at the first step that cannot be represented. Automatically widened intermediate types never drop a needed check in a later step, nor reject a later step whose exact result the widest type holds.",
["inputs","programs","histories"],
"All two- and three-operation expressions over the operators + - * / % << >> | & ^ and unary minus, with operands of full-range and sub-range types and constants, all operand values, under every promotion policy (the fixed-width policy as the library implements it: a small unsigned operand stays unsigned); an error in one sub-expression followed by evaluation with new values.",
"Tests evaluate one binary operation at a time on declared variables; the types of temporaries with computed ranges never become operands.",
["safe_base_operations.hpp","automatic.hpp","interval.hpp","checked_result_operations.hpp","safe_integer_literal.hpp"],
[("interval arithmetic yields the range of the temporary","interval.hpp; checked_result_operations.hpp"),("check elision by inclusion","safe_base_operations.hpp")],
["final value and first error versus exact evaluation"])

p("C15","Checked arithmetic carries an error through any chain of operations",
"In a chain of checked-result operations an error, once produced, is never turned back into a success with a value that exact (extended) arithmetic does not justify, and a chain without any unrepresentable step yields the exact value. Comparing a checked result that holds an error with a number gives an answer only when the error kind determines it (an overflow compares beyond every number), otherwise indeterminate.",
["histories","inputs"],
"All chains of checked operations over all integer types, all values, all kinds and positions of injected errors.",
"The checked tests cover one operation per case from a table of sample values; chains are not exercised.",
["checked_result_operations.hpp","checked_default.hpp","checked_integer.hpp","checked_result.hpp"],
[("error tables","checked_result_operations.hpp: sum_value_type, product_value_type, quotient_value_type ...")],
["state of the checked result after each link"])

p("C16","Operations on single operands are exact for every operand pair (pointwise view)",
"Each checked primitive and each operator, seen as a pure function of its operand values, equals integer mathematics or reports, for every one of the operand pairs.",
["inputs"],"All operand pairs of every type, exhaustively.",
"Tests sample boundary values.",
["checked_integer.hpp","checked_default.hpp"],[("checked primitives","checked_integer.hpp")],["function result"])

p("C17","The trap policy rejects at compile time exactly the expressions that could fail",
"Under a trap policy an expression compiles if and only if no values of its operand types can make it fail.",
["programs","configurations"],"All expressions over all safe types.",
"Three compile-fail tests.",
["exception_policies.hpp","safe_base_operations.hpp"],[("trap handler is ill-formed when instantiated","exception_policies.hpp: trap_exception")],["whether the program compiles"])

p("C18","Constant evaluation and run-time evaluation agree",
"An operation evaluated in a constant expression gives the value it gives at run time, and is ill-formed where it would report at run time.",
["inputs","programs"],"All constant expressions over safe types.",
"A few constexpr tests with fixed values.",
["safe_base_operations.hpp","safe_integer_literal.hpp"],[("constexpr implementation","safe_base_operations.hpp")],["static_assert"])

p("C19","Promotion policies give the documented result types",
"The static type of each operator's result is the one its promotion policy documents (built-in rules for native, smallest containing type for automatic, the configured target's rules for the fixed-width policy).",
["programs","configurations"],"All pairs of operand types under all policies.",
"Tests check a few types.",
["native.hpp","automatic.hpp","cpp.hpp"],[("result type metafunctions","native.hpp, automatic.hpp, cpp.hpp")],["decltype"])

p("C20","Safe types cost no space and no run time where no check is needed",
"A safe object has the size of its underlying integer and operations proven safe at compile time generate no check.",
["programs","configurations"],"All safe types and operations.",
"Not tested.",
["safe_base.hpp","safe_base_operations.hpp"],[("compile-time selection of unchecked path","safe_base_operations.hpp")],["sizeof, generated code"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
