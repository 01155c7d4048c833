"""The properties: text for properties.jsonl and the client programs that decide each."""
from effects import headers_alone, no_hidden_heap

VLA = "include/cetl/variable_length_array.hpp"
OPT = "include/cetl/pf17/optional.hpp"
UBV = "include/cetl/unbounded_variant.hpp"
RTTI = "include/cetl/rtti.hpp"
FUN = "include/cetl/pmr/function.hpp"
SPAN = "include/cetl/pf20/span.hpp"
STRV = "include/cetl/pf17/string_view.hpp"
MEM = "include/cetl/pf17/memory_resource.hpp"
BUFM = "include/cetl/pf17/buffer_memory_resource.hpp"
ARRM = "include/cetl/pf17/array_memory_resource.hpp"
BUFD = "include/cetl/pmr/buffer_memory_resource_delegate.hpp"
SYSM = "include/cetl/pf17/sys/memory_resource.hpp"
PMRM = "include/cetl/pmr/memory.hpp"
IFP = "include/cetl/pmr/interface_ptr.hpp"
VAR = "include/cetl/pf17/variant.hpp"
O1H = "include/cetl/pmr/o1heap_memory_resource_delegate.hpp"
TT = "include/cetl/pf17/type_traits.hpp"
TTX = "include/cetl/type_traits_ext.hpp"
VIS = "include/cetl/visit_helpers.hpp"
UTIL = "include/cetl/pf17/utility.hpp"
PF17 = "include/cetl/pf17/cetlpf.hpp"
PF20 = "include/cetl/pf20/cetlpf.hpp"
CETL = "include/cetl/cetl.hpp"
ALLOCATING = ["vla", "vlabool", "unbounded", "function", "memory", "sys", "pmr"]
EVERY = ["vla", "vlabool", "optional", "variant", "unbounded", "function", "span", "strview", "rtti", "memory", "sys", "pmr"]


def define(prop):
    prop("P01",
         title="VLA: every element is constructed and destroyed exactly once",
         statement="Through any sequence of operations on a variable-length array, including ones that end with an "
                   "exception from the element type or the allocator, every element that was constructed is destroyed "
                   "exactly once, no element is used before construction or after destruction, and storage never "
                   "overlaps or is read out of bounds.",
         over=["inputs", "programs", "fault_sequences"],
         text="every operation, from every size/capacity/maximum, every element type (throwing, move-only cost, trivial), "
              "every point at which a constructor, assignment or allocation can fail",
         why="Tests use a few sizes and element types and inject almost no failures; the guarantee is over all sizes and "
             "all points at which user code may throw.",
         files=[VLA],
         mechanism=[("guarded element-wise construction and move", VLA + ": fast_construct, fast_construct_move, "
                     "fast_copy_construct, fast_copy_assign, move_assign_from, fast_deallocate"),
                    ("growth helpers", VLA + ": reserve_impl, resize_impl, grow")],
         observe=["element constructor/destructor calls", "allocator calls"],
         units=[("vla", r"h_(?!emplace_own).*"), ("policy", r"h_vla_.*")],
         rules=None)
    prop("P02",
         title="VLA: storage goes back to the allocator it came from, once, same size",
         statement="Each block an array obtains from an allocator is given back exactly once, to an allocator equal to the "
                   "one it came from and with the element count it was requested with, on every path including failures. "
                   "Copy and move construction and assignment pick and propagate the allocator as the allocator's traits "
                   "prescribe.",
         over=["inputs", "programs", "fault_sequences", "configurations"],
         text="all operations, all combinations of equal/unequal allocators and propagation traits, all failure points",
         why="Tests mostly use allocators that always compare equal or do not check the count handed back; the pairing "
             "must hold for every allocator, trait combination and failure.",
         files=[VLA],
         mechanism=[("release of storage", VLA + ": fast_deallocate, release/dispose helpers"),
                    ("allocator selection and propagation", VLA + ": constructors, operator=, move_assign_from")],
         observe=["allocate/deallocate calls of the allocator", "get_allocator()"],
         units=[("vla", r"h_(?!emplace_own|.*_E6$).*"), ("vlabool", r"h_(push|resize|assign_value|reserve|copy_.|move_.|assign_copy_.|assign_move_.)")])
    prop("P03",
         title="VLA: size <= capacity <= max_size; refused growth changes nothing",
         statement="At every observable point size() <= capacity() and capacity() <= max_size(), and the storage really "
                   "holds capacity() elements. An operation that would exceed max_size(), or whose allocation fails, "
                   "reports it (exception, or unchanged size when exceptions are disabled) and leaves size, capacity "
                   "bounds and elements as they were.",
         over=["inputs", "fault_sequences", "configurations"],
         text="every starting size, capacity and maximum, every requested size, every allocation failure, with and "
              "without exceptions",
         why="The bound arithmetic (growth factor, clamping, requests near the maximum) is tested at a few round numbers; "
             "off-by-one errors live between them.",
         files=[VLA],
         mechanism=[("growth policy", VLA + ": grow, reserve, reserve_impl, resize_impl"),
                    ("maximum size", VLA + ": max_size, constructors taking max_size_max")],
         observe=["size()", "capacity()", "max_size()", "exceptions thrown"],
         units=[("vla", r"h_(?!emplace_own|.*_E6$).*"), ("vlabool", r"h_.*")])
    prop("P04",
         title="VLA: contents and order follow the sequence model",
         statement="After each operation the array holds exactly the elements that a sequence would hold after the same "
                   "operation, in the same order: insertions append, resizing keeps the common prefix, copies and moves "
                   "carry all elements, range/list construction takes every element, reserve and shrink_to_fit change "
                   "nothing. Element access, iteration, front, back and data all refer to those elements, and at() "
                   "refuses exactly the positions past the end.",
         over=["inputs", "programs"],
         text="every size, capacity and element value",
         why="Tests compare contents for a few short arrays; the statement is for every length, including growth at every "
             "capacity boundary.",
         files=[VLA],
         mechanism=[("element moving and copying", VLA + ": fast_construct_move, fast_copy_construct, fast_copy_assign, "
                     "resize_impl, assign_impl, push_back/emplace_back")],
         observe=["operator[]", "at()", "begin()/end()", "front()/back()", "data()"],
         units=[("vla", r"h_(?!emplace_own|.*_E6$).*"), ("vlabool", r"h_.*"), ("policy", r"h_vla_.*")])
    prop("P05",
         title="VLA: moved-from and self-assigned arrays stay valid and usable",
         statement="An array whose contents were moved away is empty, within its bounds and can be used again; the "
                   "elements are neither lost nor duplicated. Assigning an array to itself, by copy or by move, leaves "
                   "its elements as they were.",
         over=["inputs", "histories"],
         text="every size, element type and allocator trait combination; move followed by reuse or destruction",
         why="Tests look at one or two moved-from arrays with always-equal allocators and rarely reuse them.",
         files=[VLA],
         mechanism=[("move construction and assignment", VLA + ": move constructors, operator=(VariableLengthArray&&), "
                     "move_assign_from")],
         observe=["size()/capacity() of the moved-from array", "allocator calls on reuse"],
         units=[("vla", r"h_(ctor_move|ctor_move_alloc|assign_move|assign_copy|assign_self|sure_copy|sure_assign_from)_.."),
                ("vlabool", r"h_(move_.|assign_move_.|assign_copy_.|copied_.*|sure_from)")])
    prop("P06",
         title="VLA: arrays are equal exactly when all elements are equal",
         statement="Two arrays compare equal if and only if they have the same size and every pair of corresponding "
                   "elements is equal, whatever their capacities, maxima and histories; != is the negation.",
         over=["inputs", "histories"],
         text="every pair of arrays, every position of a difference; for bool every bit position around byte boundaries",
         why="Tests compare a few pairs; a comparison that skips some position or reads stale bits past the end is "
             "missed.",
         files=[VLA],
         mechanism=[("comparison", VLA + ": operator==, operator!=")],
         observe=["operator==", "operator!="],
         units=[("vla", r"h_equal.*"), ("vlabool", r"h_(equal|copied)_.*")])
    prop("P07",
         title="VLA<bool>: packed bits behave as an array of bool",
         statement="The bool specialisation behaves as an array of individually addressable booleans: every operation "
                   "leaves exactly the bits a sequence of bool would hold, writes through a reference change that bit "
                   "only, and size, capacity (to the rounding of whole bytes) and max_size bound each other. Failed or "
                   "refused growth leaves it unchanged.",
         over=["inputs", "fault_sequences"],
         text="every number of bits for counts and bounds; bit contents at all sizes around byte boundaries",
         why="Bit and byte counts interact at every multiple of eight; tests cover few positions and almost no failures.",
         files=[VLA],
         mechanism=[("bit addressing", VLA + ": test, set, reference, IteratorImpl"),
                    ("bit counts", VLA + ": size, capacity, last_byte_bit_fill_, resize, reserve_bits")],
         observe=["size()", "capacity()", "operator[]", "iterators", "operator=="],
         units=[("vlabool", r"h_.*")])
    prop("P08",
         title="VLA: an element of the array itself may be the inserted value",
         statement="push_back, emplace_back, resize and assign given a reference to an element of the same array insert "
                   "the value that element had when the call was made, also when the call moves the elements to new "
                   "storage.",
         over=["inputs"],
         text="every size and capacity, every position of the referenced element",
         why="The dangling reference only matters when the call reallocates and the old storage is reused; tests pass "
             "independent values.",
         files=[VLA],
         mechanism=[("order of constructing the new element and releasing the old storage", VLA + ": push_back_impl, "
                     "emplace_back, resize, assign")],
         observe=["value of the inserted elements"],
         units=[("vla", r"h_.*own.*")])
    prop("P10",
         title="optional: one value at most, constructed and destroyed exactly once",
         statement="An optional holds either nothing or exactly one live value, and has_value() says which. Construction, "
                   "assignment, emplace, swap and reset leave it engaged or empty as the C++17 optional prescribes, "
                   "also when an operation of the contained type throws: a failed assignment keeps the engaged state and "
                   "a failed emplace leaves it empty. Every value that was constructed is destroyed once.",
         over=["inputs", "programs", "fault_sequences"],
         text="every operation from every engaged/empty state of both operands; contained types that throw from copy, "
              "move or nothing, and trivial ones; every point at which the contained type can throw",
         why="Tests use types that do not throw, so the bookkeeping around a throwing constructor or assignment is never "
             "exercised; the guarantee is for every combination of states and failure points.",
         files=[OPT],
         mechanism=[("policy bases", OPT + ": base_destruction, base_copy_construction, base_move_construction, "
                     "base_copy_assignment, base_move_assignment"),
                    ("assignments, emplace, swap, reset", OPT + ": class optional")],
         observe=["has_value()", "constructor/destructor calls of the contained type"],
         units=[("optional", r"h_.*"), ("policy", r"h_opt_.*")])
    prop("P11",
         title="optional: holds the given value; access and comparison follow C++17",
         statement="The value in an optional is the one it was given: copies leave the source alone, rvalues are moved, "
                   "conversions go through the contained type. value() refuses an empty optional with "
                   "bad_optional_access and otherwise names the same object as * and ->; value_or returns the value or "
                   "the default. The six comparisons between optionals, with nullopt and with values give the answer "
                   "of the corresponding operator of the contained type, an empty optional being less than any value.",
         over=["inputs", "programs"],
         text="every combination of engaged/empty operands, any contained values including ones that do not compare",
         why="There are thirty comparison operators and sixteen ways to build an optional; tests look at some of them with "
             "integers.",
         files=[OPT],
         mechanism=[("accessors and comparison operators", OPT + ": value, value_or, operator*, operator->, operator==..>="),
                    ("constructor and assignment selection", OPT + ": enable_ctor4, enable_ctor5, enable_ctor8")],
         observe=["*o", "value()", "value_or()", "results of comparisons"],
         units=[("optional", r"h_.*"), ("policy", r"h_opt_.*")])
    prop("P12",
         title="variant: exactly the alternative named by index() is alive",
         statement="At any time a variant holds exactly one live object, of the alternative index() names, or none when "
                   "valueless_by_exception(). Every operation ends with the index C++17 prescribes, also when an "
                   "alternative throws: assignment between equal alternatives keeps the index, a copy or conversion that "
                   "can go through a temporary changes nothing, otherwise the variant becomes valueless; a valueless "
                   "variant can be copied, moved, assigned, swapped and destroyed. Every alternative that was "
                   "constructed is destroyed once.",
         over=["inputs", "programs", "fault_sequences"],
         text="every pair of alternatives (or valueless) of both operands, alternatives that throw from copy, from move, "
              "from nothing, and trivial ones, every point of failure",
         why="Tests reach the valueless state in a few operations only; the state machine has one transition per "
             "operation, pair of alternatives and failure point.",
         files=[VAR],
         mechanism=[("policy bases", VAR + ": base_storage, base_copy_construction, base_move_construction, "
                     "base_copy_assignment, base_move_assignment"),
                    ("converting assignment, emplace, swap", VAR + ": class variant")],
         observe=["index()", "valueless_by_exception()", "constructor/destructor calls of the alternatives"],
         units=[("variant", r"h_.*"), ("policy", r"h_var_.*")])
    prop("P13",
         title="variant: access, visitation and comparison reach the held alternative",
         statement="The alternative holds the value it was given, rvalues being moved. get, get_if, holds_alternative and "
                   "visit reach exactly the held object and refuse any other alternative (bad_variant_access or null); "
                   "visit passes it with the variant's value category and returns what the visitor returns, references "
                   "included. Comparisons order by alternative first and then by value, valueless below all.",
         over=["inputs", "programs"],
         text="every alternative and valueless, one or two visited variants, every pair of compared variants",
         why="Tests visit a few combinations with trivial types; wrong forwarding or a wrong comparison of a valueless "
             "variant goes unnoticed.",
         files=[VAR],
         mechanism=[("accessors", VAR + ": get, get_if, holds_alternative, detail::var::alt"),
                    ("visitation", VAR + ": chronomorphize, detail::var::visit"),
                    ("comparison", VAR + ": operator==, operator<, ...")],
         observe=["get/get_if results", "arguments the visitor receives", "results of comparisons"],
         units=[("variant", r"h_.*"), ("policy", r"h_var_.*")])
    prop("P15",
         title="unbounded_variant: every stored value is destroyed exactly once",
         statement="An unbounded_variant holds nothing or exactly one live value. Constructors, assignments, emplace, swap, "
                   "reset and the destructor destroy the value that goes away exactly once and never touch one that is not "
                   "there, also when the constructor of the new value throws or no memory is obtained; a moved-from variant "
                   "is empty.",
         over=["inputs", "programs", "fault_sequences"],
         text="every operation from every state (empty, each stored type, lost after a failure) of both operands, for "
              "in-place, allocated and mixed storage, copyable and/or movable or neither; every point of failure",
         why="The value is handled through type-erased handlers that must be present exactly when a value is; the "
             "combinations of storage policy, state and failure point are far more than the tests list.",
         files=[UBV],
         mechanism=[("handlers", UBV + ": base_access, base_handlers, base_copy, base_move"),
                    ("operations", UBV + ": class unbounded_variant, create, swapVariants")],
         observe=["constructor/destructor calls of the stored types"],
         units=[("unbounded", r"h_.*"), ("rtti", r"h_variant_.*"), ("policy", r"h_ubv_.*")])
    prop("P16",
         title="unbounded_variant: memory comes from and returns to its memory resource",
         statement="A value that fits the footprint is stored in place and never allocates. Any other value lives in one block "
                   "obtained from the variant's memory resource, which is released exactly once, to the resource it came "
                   "from, with the size and alignment it was obtained with - also when construction fails half-way. "
                   "Copies and moves adopt the source's memory resource, swap exchanges the resources, reset(mr) installs "
                   "the given one after the old block was returned.",
         over=["inputs", "programs", "fault_sequences"],
         text="allocated and mixed storage, any two resources, every state of both operands, allocation failing by exception "
              "or by null, stored types that throw",
         why="A block that is lost or returned to the wrong resource does not show in a test that uses one resource and no "
             "failures.",
         files=[UBV],
         mechanism=[("storage policies", UBV + ": base_storage (three specialisations)"),
                    ("swap and reset", UBV + ": swapVariants, reset(Pmr*)")],
         observe=["allocate/deallocate calls of the resources", "get_memory_resource()"],
         units=[("unbounded", r"h_.*"), ("rtti", r"h_variant_.*"), ("policy", r"h_ubv_.*")])
    prop("P17",
         title="unbounded_variant: access is type safe and reaches the stored value",
         statement="get_if and get reach the stored object when its type is the requested one (or, for types with cetl::rtti, "
                   "derived from it, with the pointer adjusted to the base) and otherwise return null or throw "
                   "bad_unbounded_variant_access. type_id and type_size describe the stored type, or nothing. The stored "
                   "value is the one given: lvalues are copied, rvalues moved, emplace forwards its arguments and returns "
                   "the new object.",
         over=["inputs", "programs"],
         text="every stored type against every requested type, const and non-const, by pointer, reference and value; storage "
              "policies in place, allocated, mixed",
         why="Access goes through a run-time comparison of type ids and a cast from void*; a wrong one is undefined behaviour "
             "at the use, not a failure at the access.",
         files=[UBV, RTTI],
         mechanism=[("converters", UBV + ": make_converters, get_ptr, get, get_if"), ("casts", RTTI + ": rtti_helper::_cast_")],
         observe=["results of get/get_if/type_id/type_size", "values read through them"],
         units=[("unbounded", r"h_.*"), ("rtti", r"h_variant_.*"), ("policy", r"h_ubv_.*")])
    prop("P18",
         title="unbounded_variant: states without a value are told apart and recoverable",
         statement="has_value() is true exactly when a value is stored and valueless_by_exception() exactly when the last attempt "
                   "to store one failed. Such a variant can be copied, moved, swapped, assigned, reset and destroyed like any "
                   "other: nothing is called through missing handlers, and storing a new value works. Where exceptions are "
                   "disabled, emplace reports the failure by null.",
         over=["inputs", "programs", "fault_sequences"],
         text="every operation on a variant that lost its value through a throwing constructor or a failed allocation, with every "
              "state of the other operand",
         why="The state only arises after a failure, which tests provoke in a few places.",
         files=[UBV],
         mechanism=[("state", UBV + ": has_value, valueless_by_exception, value_size_ and handler pointers"),
                    ("recovery", UBV + ": reset, copy_valueless_storage_from, base_copy::copy_from, base_move::move_from")],
         observe=["has_value()", "valueless_by_exception()", "calls through handler pointers"],
         units=[("unbounded", r"h_.*")])
    prop("P20",
         title="rtti: casts find exactly the subobjects of the requested type",
         statement="rtti_cast and is_instance_of succeed exactly when the object's class, or one of the bases listed in its "
                   "rtti_helper, carries the requested type id; the pointer returned is that subobject's address, from any "
                   "starting subobject, const or not, and casting null gives null. Type ids are the given bytes padded with "
                   "zeros; void has the all-zero id.",
         over=["inputs", "programs"],
         text="a hierarchy with several bases and depth three, every starting subobject against every target, unrelated types, null",
         why="With multiple inheritance a cast that forgets the pointer adjustment works for the first base only.",
         files=[RTTI],
         mechanism=[("search", RTTI + ": rtti_helper::_cast_, search"), ("casts", RTTI + ": rtti_cast, is_instance_of"),
                    ("ids", RTTI + ": type_id_type_value, type_id_getter")],
         observe=["results of rtti_cast/is_instance_of", "type_id_value"],
         units=[("rtti", r"h_.*")])
    prop("P19",
         title="pmr::function: calls reach the target, which is kept and released properly",
         statement="A function holds no target or one, as its conversion to bool says; calling it passes arguments, result and "
                   "exceptions of the target through, calling one without target throws bad_function_call. Copies have their "
                   "own target, moves take it along and leave the source empty, swap exchanges targets and resources. The "
                   "target lives in place or in one block of the memory resource and is destroyed exactly once; an assignment "
                   "that fails leaves either the old target or none, never a stale one.",
         over=["inputs", "programs", "fault_sequences"],
         text="every operation from every state (empty, target in place, target allocated, lost after a failure) of both operands; "
              "targets whose copy throws, allocation failing by exception or null",
         why="The class keeps a raw pointer to the handler next to the storage that owns it; the two have to be updated together "
             "on every path, including the failing ones.",
         files=[FUN, UBV],
         mechanism=[("handler pointer", FUN + ": handler_ptr_, operator=, swap, reset"),
                    ("type erasure", FUN + ": function_handler, functor_handler"),
                    ("storage", UBV + ": unbounded_variant")],
         observe=["calls of the target", "operator bool", "valueless_by_exception()", "allocate/deallocate calls"],
         units=[("function", r"h_.*")])
    prop("P21",
         title="span: views exactly the given elements",
         statement="A span made from a pointer and a count, two pointers, an array or another span views exactly those elements: "
                   "data, size, size_bytes, empty, begin/end and their reverse counterparts, indexing, front and back agree with "
                   "it. first, last and subspan (run-time and compile-time forms, static and dynamic extent) view exactly the "
                   "requested part. Only const may be added and static extents must agree. No debug assertion fails for valid "
                   "arguments.",
         over=["inputs", "programs"],
         text="any element count, offset and length (symbolic); static and dynamic extents; element types of different size",
         why="Tests use a handful of sizes; an off-by-one in a sub-view or a missing scaling shows only for particular offsets.",
         files=[SPAN],
         mechanism=[("static extent", SPAN + ": class span"), ("dynamic extent", SPAN + ": class span<T, dynamic_extent>")],
         observe=["data(), size() and iterators of every view", "addresses of accessed elements"],
         units=[("span", r"h_.*")])
    prop("P22",
         title="string_view: views, searches, compares and prints the given text",
         statement="A string_view views exactly the given characters; substr, copy, remove_prefix and remove_suffix cut it at the "
                   "right places, and at, substr and copy refuse positions outside with out_of_range. find returns the first "
                   "position from pos where the character or text occurs, or npos; compare and the operators order "
                   "lexicographically, a prefix first. Output writes the text once, padded to the stream's width with its fill "
                   "character, after the text for left adjustment and before it otherwise, and resets the width.",
         over=["inputs", "programs"],
         text="texts of any length for bounds and structure (symbolic length and positions); texts of up to four arbitrary "
              "characters for exact search and comparison results; any width and adjustment for output",
         why="Searching and comparing have many corner cases (empty texts, positions at the end, prefixes) of which tests list a "
             "few.",
         files=[STRV],
         mechanism=[("sub-views", STRV + ": substr, copy, remove_prefix, remove_suffix"), ("search", STRV + ": find"),
                    ("comparison", STRV + ": compare, operators"), ("output", STRV + ": operator<<")],
         observe=["data() and size() of every view", "results of find/compare", "characters written to the stream"],
         units=[("strview", r"h_.*")])
    prop("P23",
         title="monotonic buffer: disjoint aligned blocks, everything returned upstream",
         statement="A monotonic buffer resource hands out blocks of the requested size, aligned as requested, that overlap "
                   "neither each other nor its own bookkeeping and lie in the initial buffer or in memory obtained upstream; the "
                   "initial buffer is used as long as it has room. A request that cannot be met, for whatever reason and size, "
                   "fails with bad_alloc (null without exceptions), leaves earlier blocks alone and asks upstream at most once. "
                   "release() and the destructor return every upstream block exactly once with the size and alignment it was "
                   "requested with, after release() the initial buffer is used again; single deallocations do nothing.",
         over=["inputs", "programs", "fault_sequences"],
         text="any buffer address, buffer size and request size (including sizes that overflow), alignments 1 to 64, one to three "
              "requests, upstream failing by exception or null at any of them",
         why="Padding depends on addresses: a computation that forgets it is right for the aligned buffers of the tests only, and "
             "overflowing sizes are never tried.",
         files=[MEM],
         mechanism=[("buffer chain", MEM + ": basic_monotonic_buffer_resource, BufferControl"),
                    ("allocation", MEM + ": do_allocate, do_allocate_from_current_buffer"), ("release", MEM + ": release")],
         observe=["addresses handed out", "allocate/deallocate calls upstream", "accesses to the bookkeeping"],
         units=[("memory", r"h_mono_.*")])
    prop("P24",
         title="buffer/array resources: one block in the buffer, the rest upstream",
         statement="A buffer or array memory resource hands out one block at a time inside its buffer, at the requested "
                   "alignment and within bounds, and forwards what does not fit to the upstream resource within the given limit; "
                   "blocks never overlap. A block goes back to where it came from, with the size and alignment it was obtained "
                   "with. Reallocation keeps the content that fits; when it fails the old block stays valid and owned. Requests "
                   "that cannot be met fail with bad_alloc (null without exceptions). max_size is the saturated sum of both "
                   "limits. The o1heap delegate passes sizes and blocks to o1heap unchanged and reports a refused request the "
                   "same way; its storage lies inside the object, aligned for o1heap.",
         over=["inputs", "programs", "fault_sequences"],
         text="any buffer address, buffer size, limit and request size, alignments 1 to 64, up to two blocks at a time, with and "
              "without upstream resource, upstream failing by exception or null",
         why="Whether the buffer is in use is remembered in a single pointer that every failing path has to keep right; tests do "
             "not use blocks after a failure.",
         files=[BUFM, ARRM, BUFD, O1H],
         mechanism=[("delegate", BUFD + ": UnsynchronizedBufferMemoryResourceDelegate"),
                    ("resources", BUFM + ": UnsynchronizedBufferMemoryResource; " + ARRM + ": UnsynchronizedArrayMemoryResource")],
         observe=["addresses handed out", "allocate/deallocate/reallocate calls upstream", "content after reallocation"],
         units=[("memory", r"h_(buf|arr).*"), ("o1h", r".*")])
    prop("P25",
         title="polymorphic_allocator: exact sizes, no overflow, uses-allocator construction",
         statement="allocate, reallocate and deallocate of a polymorphic_allocator pass exactly the size and alignment of the "
                   "objects to the memory resource; a count whose size does not fit size_t is refused without asking it, and a "
                   "failed reallocation leaves the old block owned. Copies and conversions keep the resource; allocators compare "
                   "as their resources do; max_size counts objects. construct forwards its arguments as given, passes the "
                   "allocator to types that use it (first or last argument) and builds both members of a pair that way from "
                   "nothing, two values, tuples or another pair. An exception from the resource or a constructor reaches the "
                   "caller. The null resource refuses everything.",
         over=["inputs", "programs", "fault_sequences"],
         text="any object count (including overflowing ones), element types of different size and alignment, resources failing by "
              "exception or null or unable to resize; every form of construct with plain, leading- and trailing-allocator types, "
              "lvalue and rvalue arguments, throwing constructors",
         why="The construct overloads are rarely used template code where a wrong overload silently copies or reads a dead "
             "temporary; size overflows only matter for counts no test uses.",
         files=[MEM],
         mechanism=[("storage", MEM + ": polymorphic_allocator::allocate, reallocate, deallocate"),
                    ("construction", MEM + ": polymorphic_allocator::construct, make_pair_member_args"),
                    ("traits", MEM + ": memory_resource_traits"), ("null resource", MEM + ": null_memory_resource")],
         observe=["calls of the memory resource with size and alignment", "constructor called and its arguments",
                  "moved-from state of arguments"],
         units=[("pmr", r"h_(pa|construct|pair|null|destroy).*"), ("sys", r"h_thr_null")])
    prop("P26",
         title="Deleters and factories: object and block released once, with right size",
         statement="A smart pointer with a MemoryResourceDeleter, from Factory::make_unique or InterfaceFactory::make_unique owns "
                   "exactly one block (and object): it is destroyed and returned once, as its concrete type and with the size, "
                   "alignment and resource it came from, through moves, assignments (also to itself), swap and reset. When the "
                   "allocation or the constructor fails nothing is destroyed that was not made and no block is lost. Size, "
                   "alignment and resource reported by a deleter are those of its block; a moved-from deleter has no resource.",
         over=["inputs", "programs", "fault_sequences"],
         text="any block size; construction, move, assignment, self-assignment, swap and reset of the pointers; interfaces that are "
              "not the first base and have no virtual destructor; allocation failing by exception or null, throwing constructors",
         why="A deleter with the wrong size, type or resource corrupts the heap far from the cause; failing constructors are not "
             "tested.",
         files=[PMRM, IFP],
         mechanism=[("deleters", PMRM + ": MemoryResourceDeleter, PolymorphicDeleter"), ("factory", PMRM + ": Factory::make_unique"),
                    ("interfaces", IFP + ": PmrInterfaceDeleter, InterfaceFactory, ConcreteRaii")],
         observe=["constructor and destructor calls", "allocate/deallocate calls of the resource", "size(), alignment(), resource()"],
         units=[("pmr", r"h_(del|make|iface).*")])
    prop("P28",
         title="new/delete resource: aligned blocks, failures reported, over-alignment refused",
         statement="MaxAlignNewDeleteResource hands out blocks of the C heap of the requested size, aligned as requested; alignments "
                   "beyond max_align_t are refused by allocate and reallocate. Failures of allocate throw bad_alloc (null without "
                   "exceptions). A block is released once; reallocation keeps the content, and when it fails the old block stays "
                   "valid.",
         over=["inputs", "fault_sequences"],
         text="any size, alignments 1 to 4096, malloc and realloc failing at any call, reallocation of null and of a block",
         why="malloc does not fail in tests, and an under-aligned block works on most machines.",
         files=[SYSM],
         mechanism=[("resource", SYSM + ": MaxAlignNewDeleteResource")],
         observe=["calls of malloc/realloc/free", "returned pointers and exceptions"],
         units=[("sys", r"h_nd_.*")])
    prop("P30",
         title="Global default resources: set returns what it replaced, also with threads",
         statement="get_default_resource and new_delete_resource never return null and return what was set last; both start as the "
                   "built-in resource and are separate variables. set_default_resource and set_new_delete_resource return exactly "
                   "the value they replaced and treat null as the new/delete resource, respectively the built-in one. All of this "
                   "is free of data races when called from several threads, including the first use: the variables are read and "
                   "replaced in one atomic step each that also publishes the resource.",
         over=["programs", "interleavings"],
         text="sequences of setting and getting both variables; any interference of other threads between two accesses of the shared "
              "variables (thread-modular), first use included",
         why="Races and lost updates do not show in single-threaded tests.",
         files=[SYSM],
         mechanism=[("variables", SYSM + ": get_new_delete_resource_singleton, get_default_resource_singleton"),
                    ("functions", SYSM + ": get_default_resource, set_default_resource, new_delete_resource, set_new_delete_resource")],
         observe=["values returned", "atomicity and ordering of accesses to the shared variables"],
         units=[("sys", r"h_(glob|thr)_.*")])
    prop("P09",
         title="Exceptions of user code reach the caller: not swallowed, no termination",
         statement="An exception thrown by an element, allocator, memory resource, callable or visitor inside an operation of the "
                   "library leaves that operation unchanged, unless the operation is declared noexcept: it is never swallowed by a "
                   "catch clause of the library, never replaced, and never runs into a noexcept boundary inside the library that "
                   "would terminate the process.",
         over=["inputs", "programs", "fault_sequences"],
         text="every operation of every client program, every point at which user code or an allocation may throw, builds with "
              "exceptions",
         why="Needs a fault at a particular call; tests throw from few places and a terminate ends the test program.",
         files=[VLA, OPT, VAR, UBV, FUN, MEM, PMRM, IFP],
         mechanism=[("guarded operations", VLA + ": try/catch of the growth and copy helpers"),
                    ("noexcept declarations", OPT + ", " + VAR + ", " + UBV + ": noexcept specifications of special members"),
                    ("factories", PMRM + ": Factory::make_unique; " + IFP + ": InterfaceFactory::make_unique")],
         observe=["exception leaving the operation", "std::terminate"],
         rules=("terminate", "terminate-lib", "swallow"),
         only=r"^c..d?$",
         rule="a throw of user code unwinds to the client program: no library catch clause ends it without rethrowing, no noexcept "
              "boundary or terminate handler of the library is on its way",
         units=[(u, r"h_(?!emplace_own).*") for u in EVERY])
    prop("P14",
         title="Types offer exactly the operations the standard gives them",
         statement="The special members, conversions, constructors and noexcept-ness of optional, variant, unbounded_variant, "
                   "function, span, string_view and the variable-length array follow the types they hold: a member is copyable, "
                   "movable, assignable, destructible (trivially, or without throwing) exactly when the contained types are, deleted "
                   "or absent otherwise, and ill-formed uses (a fixed span over a different number of elements, dropping const, "
                   "narrowing, ambiguous alternatives, out-of-range alternatives) are rejected at overload resolution.",
         over=["programs"],
         text="element types with every combination of absent, deleted, throwing and trivial special members; fixed and dynamic "
              "spans of const and mutable elements; constant expressions; C++14, 17 and 20, with and without exceptions and RTTI",
         why="A wrongly enabled overload compiles silently and a wrongly disabled one is only seen by whoever needs it; tests "
             "instantiate a handful of element types.",
         files=[OPT, VAR, UBV, FUN, SPAN, STRV, VLA, "include/cetl/_helper_enable_copy_move.hpp"],
         mechanism=[("policy bases", OPT + ", " + VAR + ": copy/move/destroy layers"), ("constraints", SPAN + ": enable_if of constructors")],
         observe=["type traits and overload resolution as evaluated by the compiler"],
         technique="compile-time witnesses: type traits and overload resolution evaluated by the compiler, decided from the IR",
         rule="every trait expression of the client programs tagged with this property is the constant true",
         rules=(),
         units=[("types", r".*")])
    prop("P27",
         title="No hidden heap: memory comes only from supplied allocators and resources",
         statement="optional, variant, span, string_view, rtti, the traits, unbounded_variant, function, the variable-length array "
                   "and the buffer, array and monotonic resources never reach operator new or the C heap themselves: all dynamic "
                   "memory comes from the allocator or memory resource they are given.",
         over=["programs"],
         text="everything reachable in the call graph, including through virtual functions and function pointers, from all client "
              "programs except those of the new/delete resource",
         why="A temporary allocation works in any hosted test and is invisible until the code runs on a target without a heap.",
         files=[VLA, OPT, VAR, UBV, FUN, SPAN, STRV, MEM, BUFD, BUFM, ARRM, PMRM, IFP, RTTI],
         mechanism=[("storage", UBV + ": storage_policy"), ("growth", VLA + ": allocator_traits calls")],
         observe=["functions reachable in the call graph"],
         technique="call-graph reachability over the compiled client programs (address-taken functions and vtables included)",
         coverage="Call graphs of the client programs: every function they reference, transitively.",
         rule="no operator new, malloc, calloc, realloc or aligned allocation function is reachable from a client program that "
              "supplies its own memory",
         units=[], rules=(),
         extra=[no_hidden_heap(["optional", "variant", "unbounded", "function", "span", "strview", "rtti", "vla", "vlabool",
                                "memory", "pmr", "types", "o1h"])])
    prop("P29",
         title="Without exceptions: allocation failures are reported, never used",
         statement="In builds without exceptions, when an allocator or memory resource returns null, the library never dereferences, "
                   "releases or keeps the null block: containers keep their former, valid content, objects that cannot be made are "
                   "reported as null, empty or unchanged, and the process is not aborted.",
         over=["inputs", "programs", "fault_sequences"],
         text="every allocating operation of the client programs with every allocation failing by returning null, C++14 to 20 "
              "without exceptions and RTTI",
         why="The test suite is built with exceptions for almost every case; allocation failure without them is hardly exercised.",
         files=[VLA, UBV, FUN, MEM, PMRM, IFP, SYSM],
         mechanism=[("null checks", VLA + ": reserve_impl, resize_impl; " + UBV + ": alloc_new_value, copy/move of storage"),
                    ("resources", MEM + ", " + SYSM + ", " + BUFD + ": do_allocate, do_reallocate")],
         observe=["memory accesses", "allocate/deallocate calls", "abort"],
         only="n",
         rules=("lifetime", "leak", "release", "bounds", "null", "dangling", "uninit", "type", "abort", "align"),
         units=[(u, r"h_(?!emplace_own|(reserve|shrink)_E6).*") for u in ALLOCATING])
    prop("P31",
         title="Headers stand alone; cetlpf aliases name the right library",
         statement="Every header of the library compiles when it is the only one included (the o1heap delegate after cetlpf.hpp, as "
                   "documented), in every language mode, with and without exceptions, RTTI and debug assertions, and may be included "
                   "in several translation units. The cetl::pf17 and cetl::pf20 aliases name the standard library's entity where it "
                   "has one and the CETL polyfill otherwise, and code written against the aliases means the same in every mode.",
         over=["programs"],
         text="all headers, ten configurations of language mode, exceptions, RTTI and debug assertions",
         why="The tests build with a few configurations and always include several headers at once.",
         files=[PF17, PF20, CETL, VIS, TT, O1H],
         mechanism=[("aliases", PF17 + ", " + PF20 + ": using declarations per language mode")],
         observe=["the compiler accepts each header on its own", "linkage of what it defines", "type identities"],
         technique="compile-time witnesses: each header compiled on its own and its definitions' linkage inspected; type identities "
                   "evaluated by the compiler",
         rule="each header compiles alone (and included twice) and defines no strong external symbol; every type identity of the "
              "client programs tagged with this property is the constant true",
         rules=(),
         units=[("alias", r".*")],
         extra=[headers_alone])
    prop("P32",
         title="Debug assertions: never fail in valid use, stop the documented misuses",
         statement="With CETL_ENABLE_DEBUG_ASSERT no assertion of the library fails in a program that keeps the documented "
                   "preconditions, whatever the sizes, values and failures of user code. Span accesses and sub-spans beyond the "
                   "extent, fixed spans over a wrong number of elements, front() of an empty array, and resources, functions and "
                   "deleters without the memory resource or buffer they need are stopped by an assertion before anything is "
                   "accessed; access to an absent value is stopped in builds without exceptions.",
         over=["inputs", "programs", "fault_sequences"],
         text="all client programs with debug assertions on; every misuse listed, with any size and argument for which it is one",
         why="Tests exercise an assertion with one or two arguments each and cannot show it silent for all valid ones.",
         files=[SPAN, VLA, UBV, FUN, MEM, PMRM, IFP, BUFD],
         mechanism=[("assertions", SPAN + ", " + VLA + ", " + UBV + ", " + MEM + ": CETL_DEBUG_ASSERT")],
         observe=["__assert_fail", "accesses after a misuse"],
         only="d$",
         rules=("debug-assert",),
         rule="no debug assertion of the library is refuted in a client program that keeps the preconditions; on every path of a "
              "client program that breaks one an assertion is refuted before the program goes on",
         units=[(u, r"h_(?!emplace_own).*") for u in EVERY] + [("misuse", r".*")])
    prop("P33",
         title="Traits and visitors mean what their standard namesakes mean",
         statement="conjunction, disjunction, negation, void_t, is_swappable and is_nothrow_swappable, the type-list searches and "
                   "narrowing and best-match traits of type_traits_ext, in_place tags and overloaded/make_overloaded give the "
                   "result of the standard trait of that name (or their documentation) for every type, including non-swappable, "
                   "const, reference, array and empty packs, and short-circuit where the standard does.",
         over=["programs"],
         text="type arguments of every category, empty to many of them; C++14, 17 and 20",
         why="Other parts of the library select code with these traits; tests use them on a few types.",
         files=[TT, TTX, VIS, UTIL],
         mechanism=[("traits", TT + "; " + TTX), ("visitors", VIS + ": overloaded, make_overloaded")],
         observe=["values of the traits", "overload selected by a visitor"],
         technique="compile-time witnesses: traits and overload resolution evaluated by the compiler, decided from the IR",
         rule="every trait expression of the client programs tagged with this property is the constant true; visitors call the "
              "overload that overload resolution selects",
         rules=(),
         units=[("traits", r".*")])
    prop("P34",
         title="What is declared constexpr can be used in constant expressions",
         statement="The constructors, accessors, comparisons and factories of optional, variant, monostate, span, basic_string_view, "
                   "the in_place tags, type identifiers and overloaded visitors that are declared constexpr are usable in constant "
                   "expressions with literal element types, wherever the standard library functions they need are constexpr in that "
                   "language mode: value(), get(), get_if(), visit(), first/last/subspan, at(), substr() and the rest, in all "
                   "reference qualifications, with and without exceptions and debug assertions.",
         over=["programs"],
         text="every constexpr operation of these types with literal element types; C++14, 17 and 20, with and without "
              "exceptions, RTTI and debug assertions",
         why="A function template declared constexpr that can never be one is accepted silently; only a caller that needs the "
             "constant sees the error, and tests call most of these functions at run time.",
         files=[OPT, VAR, SPAN, STRV, RTTI, VIS, UTIL],
         mechanism=[("constexpr members", OPT + ", " + VAR + ", " + SPAN + ", " + STRV)],
         observe=["whether the compiler accepts a call as a constant expression"],
         technique="compile-time witnesses: whether a call is a constant expression is decided by the compiler's front end in a "
                   "template argument; no value is examined",
         rule="every call listed in the client programs tagged with this property is a constant expression",
         rules=(),
         units=[("constant", r".*")])
