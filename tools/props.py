U = "nion/utils/"
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=[U + f for f in files], mech=[(n, U + w) for n, w in mech], note=note, na=na))


P("C01", "Events reach exactly the live listeners, once each, in order",
  "Firing an event calls exactly the listeners that are registered at that moment, each once, in the order the listeners were added, with exactly the positional and keyword arguments of the firing. "
  "A listener that was closed, whose token was dropped, whose with-block ended or whose owner was collected is never called again, while a listener with a living owner stays registered even if nobody keeps its token. "
  "Listeners that close, drop, add or re-fire during a firing never make another listener be skipped or called twice.",
  ["histories", "inputs"], "every history of listen/close/drop/owner-death/fire operations, and every action of a listener during a firing",
  "Tests try two or three histories; lost or duplicated deliveries show up only for particular orders of registration, release and nested firing.",
  ["Event.py"], [("listener list", "Event.py:Event.listen"), ("delivery", "Event.py:Event.fire"), ("release", "Event.py:EventListener.close")],
  "all histories of up to 5 (thorough 6) operations with up to 3 live listeners; arguments unbounded integers")
P("C02", "Event voting stops at the deciding listener; failures are contained",
  "A vote-for-any firing asks listeners in order until one answers true and returns true then, else false; a vote-for-all firing asks until one answers false and returns false then, else true; with no listeners the answers are false and true; a plain firing ignores answers. "
  "A vote for any is true only if a listener answered true. An ordinary exception raised by a listener never reaches the code that fires but is reported on standard error, listeners before it have been called, and later firings work as if it had not happened.",
  ["inputs", "fault_sequences"], "every number of listeners, every combination of answers and every subset of failing listeners",
  "The answer vector and the failing subset are exponential in the number of listeners and each combination decides a different call sequence.",
  ["Event.py"], [("vote any", "Event.py:Event.fire_any"), ("vote all", "Event.py:Event.fire_all"), ("exception report", "Event.py:Event.__print_event_exception")],
  "up to 4 or 5 (thorough 6) listeners with arbitrary answers / failing subsets")
P("C04", "Selection operations follow the selection style and announce real changes",
  "For every selection style and every state, set, add, remove, toggle, extend, add-range, set-multiple and clear produce exactly the documented set of selected indexes: multiple selects unions and anchor-to-index ranges, single styles never hold more than one index, the none style never holds any, and clearing a single selection selects index zero. "
  "The anchor is always one of the selected indexes, or absent when nothing is selected, stays when another index is removed, and can be moved to another selected index; the ordered view lists the anchor first and the rest ascending. "
  "The change event fires exactly once for an operation that changed the set of selected indexes and not at all for one that did not, after the new selection and anchor are in place.",
  ["histories", "inputs"], "every selection state, style, operation sequence and index argument",
  "Tests check one extend; style x state x operation x index relations (equal, below, above the anchor) are far more than a test table samples.",
  ["Selection.py"], [("operations", "Selection.py:IndexedSelection"), ("change announcement", "Selection.py:IndexedSelection.changed_event")],
  "any selection of up to 2 (thorough 3) indexes in 0..10^6 with any anchor, then 2 (3) operations with arbitrary indexes; extend within 3 of the anchor")
P("C05", "Selections follow their items when items are inserted or removed",
  "When an item is inserted into or removed from the list a selection refers to, the selection keeps selecting exactly the same remaining items: indexes at or after an insertion move up by one, indexes after a removal move down by one, and only the removed item leaves the selection. "
  "The anchor moves with its item; if its item is removed the anchor becomes a selected index, or absent if none is left.",
  ["histories", "inputs"], "every selection, anchor and sequence of insertion and removal positions",
  "The relation of the position to every selected index and to the anchor (before, at, after) must be right for all combinations at once.",
  ["Selection.py"], [("renumbering", "Selection.py:IndexedSelection.insert_index"), ("renumbering", "Selection.py:IndexedSelection.remove_index")],
  "up to 3 selected indexes in 0..10^9 with 3 insertions/removals at arbitrary positions, 4 with 2 (thorough 3)")
P("C06", "A list model's notifications describe its list exactly",
  "Inserting, appending, removing and clearing items in a list model changes the list as a plain list would, and each change is announced by exactly one notification carrying the list's key, the item and its index, after the list has been updated. "
  "An observer that applies the notifications to a copy of the initial list has the same list after each of them, and the model never aliases the list it was created from.",
  ["histories", "inputs"], "every initial list and every sequence of operations at every position",
  "Tests observe single inserts; agreement of list and notifications must hold along every history.",
  ["ListModel.py", "Observable.py"], [("mutations", "ListModel.py:ListModel"), ("notification", "Observable.py:Observable.notify_insert_item")],
  "up to 3 initial items, 3 (thorough 4) operations at arbitrary positions")
P("C07", "A filtered list always shows the matching items in the required order",
  "After every change, a filtered list contains exactly the items of its container that match the filter: in container order when no sort key is set, otherwise in ascending (or, if reversed, descending) order of the sort key. "
  "This holds after items are inserted, removed or change their content (including their sort key), after the filter, sort key or direction is set (also to the same filter or key which now answers differently) or the list is marked changed, after a group of such changes ends, through chains of filtered lists, and after the container is replaced; during a group the list does not change, and a closed list is empty and follows nothing.",
  ["histories", "inputs"], "every history of source changes, content changes, reconfigurations and groups, with every combination of keys and matches",
  "Incremental maintenance has separate code paths (binary search, unsorted position, grouped diff, full replacement) whose errors appear only for particular key orders and histories.",
  ["ListModel.py"], [("incremental insert", "ListModel.py:FilteredListModel.__insert_item"), ("content change", "ListModel.py:FilteredListModel.__updated_master_item"), ("grouped update", "ListModel.py:FilteredListModel.__update_items")],
  "up to 3 items with arbitrary keys 0..100 and visibility, six filter/sort configurations, 1-2 changes at arbitrary positions (thorough: 3 items and 2 changes, groups with reconfiguration); chains of two lists; container switch")
P("C08", "A filtered list's notifications rebuild it step by step",
  "Every change of a filtered list is announced by insert and remove notifications that, applied one after the other to a copy, each fit it (valid index, and the removed item is the one at that index) and leave the copy equal to the list, also at that moment. "
  "All item notifications of an operation lie between a begin-changes and an end-changes announcement, which are always balanced.",
  ["histories", "inputs"], "every history of source changes, content changes, reconfigurations, groups and container switches",
  "A wrong index or payload in a bulk update corrupts every downstream view, but only for lists and changes where old and new order differ.",
  ["ListModel.py"], [("bulk update", "ListModel.py:FilteredListModel.__update_items"), ("insert", "ListModel.py:FilteredListModel.__insert_item"), ("remove", "ListModel.py:FilteredListModel.__remove_item")],
  "same histories as C07")
P("C09", "A mapped list holds one mapped item per source item, mapped and unmapped once",
  "A mapped list always contains, in source order, exactly one mapped object per item of its source; an item that stays in the source is not mapped again; an object leaving the list is passed to the unmap function exactly once. "
  "Its notifications rebuild it step by step, grouped changes are announced in balanced begin/end pairs, selections made from it keep selecting the same items, closing it empties it and unmaps everything, and replacing the container leaves only the new container's items, followed from then on.",
  ["histories", "inputs"], "every history of source insertions and removals (also through filtered sources), selections, groups, container switch and close",
  "Leaks and double releases of mapped objects depend on the order of removals, container switches and closes.",
  ["ListModel.py"], [("mapping", "ListModel.py:MappedListModel.__master_item_inserted"), ("unmapping", "ListModel.py:MappedListModel.__master_item_removed"), ("container", "ListModel.py:MappedListModel.container")],
  "up to 3 items, 2 (thorough 3) changes at arbitrary positions, any selection; filtered/sorted sources")
P("C10", "A flattened list is the concatenation of its containers' children",
  "A flattened list always equals the concatenation, in order, of the child lists of its containers, through any insertion and removal of containers and of children, and no longer follows containers that were removed or a container list that was replaced. "
  "Its notifications rebuild it step by step and selections made from it (as from other derived lists) keep selecting the same items.",
  ["histories", "inputs"], "every arrangement of containers and children, every history of insertions/removals and every selection",
  "Flattened indexes depend on the sizes of all preceding containers; tests use one or two fixed arrangements and no selections.",
  ["ListModel.py"], [("child insert", "ListModel.py:FlattenedListModel.__child_item_inserted"), ("child remove", "ListModel.py:FlattenedListModel.__child_item_removed"), ("containers", "ListModel.py:FlattenedListModel.__master_item_removed")],
  "2 (thorough 3) containers with up to 2 children, 1-2 (3) changes; selections over filtered lists that hide or reorder items are a known finding")
GEO = "Layout code relies on algebraic identities for all coordinates; tests use a handful of numbers and miss sign, order, parity and swapped-axis errors."
P("C12", "Integer points, sizes and rectangles obey exact coordinate arithmetic",
  "Points and sizes add, subtract, negate, scale, compare, index and iterate coordinate by coordinate (vertical first), and results belong to the integer family. A rectangle built from origin/size, edges or top-left/extent reports the corresponding edges, corners, centre (middle, rounded down), slice and size. "
  "Translating (by method or by + and - with a point) keeps the size and moves the origin exactly; inset shrinks symmetrically; a rectangle made from centre and size has that centre and size. "
  "A rectangle contains its top/left edge but not its bottom/right edge; a point lies in the intersection exactly if it lies in both; rectangles intersect exactly if they overlap or touch; the union is the smallest rectangle around both. Equality compares coordinates, accepts tuples and None, and != is its opposite. Conversion to the float family keeps all coordinates.",
  ["inputs"], "all integer coordinates and non-negative extents", GEO, ["Geometry.py"],
  [("points", "Geometry.py:IntPoint"), ("sizes", "Geometry.py:IntSize"), ("rectangles", "Geometry.py:IntRect")],
  "coordinates of magnitude up to 10^6, extents 0..10^6, all relative positions")
P("C13", "Float points, sizes and rectangles obey the same coordinate arithmetic",
  "The float family satisfies the same identities as the integer family (arithmetic, scaling and division, accessors, exact centre, translation, inset, containment, intersection, union, equality), with the centre exactly in the middle, aspect ratio width over height (1 for height 0) and a unit rectangle of origin 0 and size 1. Creating an integer point from floats drops the fraction.",
  ["inputs"], "all coordinates for which the arithmetic is exact, and ratios up to rounding", GEO, ["Geometry.py"],
  [("points", "Geometry.py:FloatPoint"), ("sizes", "Geometry.py:FloatSize"), ("rectangles", "Geometry.py:FloatRect")],
  "coordinates multiples of 2^-8 up to 10^6 (exact double arithmetic); ratios and inexact divisors within 1e-9")
P("C14", "Coordinate mapping, fitting, rotation and measuring preserve geometry",
  "Mapping a point, size or rectangle from one rectangle to another keeps its relative position and relative size in each axis. Fitting a rectangle to an aspect ratio or size gives a centred rectangle inside it with that ratio that fills one direction. "
  "Rotation turns by the angle about the given origin (default zero), the midpoint is half way in both axes and distance/abs are Euclidean.",
  ["inputs"], "all source and target rectangles, points, ratios and angles in the bounds",
  "Mapping mixes four rectangles' coordinates; axis swaps or missing offsets cancel out for the square, zero-origin inputs used in tests.", ["Geometry.py"],
  [("mapping", "Geometry.py:map_point"), ("mapping", "Geometry.py:map_rect"), ("fitting", "Geometry.py:fit_to_aspect_ratio"), ("rotation", "Geometry.py:FloatPoint.rotate"), ("distance", "Geometry.py:distance")],
  "positions multiples of 2^-4 up to 1024, source extents 1/2, 1, 4, 256 exact and 3, 10, 0.1 within 1e-9, ratios 1/4..3, five angles")
P("C15", "Linear axis ticks cover the data with pretty, even spacing",
  "For any two limits in either order, a linear ticker's spacing is 1, 2 or 5 times a power of ten; its minimum and maximum enclose the data and extend beyond it by less than one spacing; tick values run evenly from minimum to maximum, each has a label that denotes its value well enough to tell it from the other ticks (also for large and negative values), their number is near the number asked for, and the precision is just enough to show the leading digit of the spacing. A single value has one tick at that value; limits that are not finite give a single labelled tick.",
  ["inputs"], "all pairs of finite limits and tick counts in the bounds",
  "Floor/ceiling and power-of-ten selection go wrong only at particular magnitudes and boundary ratios.", ["Geometry.py"],
  [("pretty numbers", "Geometry.py:make_pretty"), ("range", "Geometry.py:make_pretty_range2"), ("ticker", "Geometry.py:LinearTicker")],
  "integer limits up to 200 with 5 ticks, multiples of 1/16 up to 16 with 3 or 5 ticks, multiples of 10^7 up to 4*10^8 (thorough: 2000, 64, 1/256 steps and 2*10^9, 2..10 ticks); log10 by contract")
P("C34", "Logarithmic axis ticks cover the data in even decades",
  "For any two finite limits (exponents of the base, low <= high) a logarithmic ticker's ticks ascend and cover the range; its major ticks are equally spaced, start less than one spacing below the low limit and end less than two spacings above the high one; "
  "minor ticks are those listed by their indices, lie at whole multiples of the major tick before them and are the same in every decade; each tick has a label, which for base ten denotes its value. Limits that are not finite give a single labelled tick.",
  ["inputs"], "all pairs of finite limits, bases and tick counts in the bounds",
  "Floors, ceilings and the choice of decades and subdivisions go wrong only at particular ranges and boundaries.", ["Geometry.py"],
  [("ticker", "Geometry.py:LogTicker")],
  "limits that are multiples of 1/4 up to 6 (1/32 up to 2 for narrow ranges), bases 2, 4 and 10, 2 to 10 ticks (thorough: 1/8 up to 12, 1/128); log and pow by contract (inverse of each other up to 1e-9); the display limits (minimum, maximum) are not claimed")
P("C11", "Filters match exactly what they say, alone, combined and copied",
  "Equality, inequality (with default or custom comparison), prefix, case-insensitive text, partial-date, predicate and constant filters match exactly the items described by their parameters; and/or/not filters match exactly the conjunction, disjunction or negation of their parts (an empty and matches everything, an empty or nothing), to any nesting. "
  "A filter keeps its own list of parts, and a deep copy matches exactly the same items as the original.",
  ["inputs"], "every combination of filters, parameters and item values",
  "Truth tables over nested combinations and text positions are too many to sample, and copies are not tested at all.", ["ListModel.py"],
  [("combinators", "ListModel.py:AndFilter"), ("text", "ListModel.py:TextFilter"), ("dates", "ListModel.py:PartialDateFilter"), ("copying", "ListModel.py:Filter.__deepcopy__")],
  "one level with up to 3 parts (thorough 4), two levels with 1 (2), over all leaf kinds with unbounded integers; texts up to 4 (5) ASCII characters, patterns up to 3 (4)")
P("C16", "Number converters survive a round trip",
  "An integer survives conversion to text and back; a percentage or scaled integer survives conversion to its value and back exactly, a value survives conversion to it within one step, the ends of a range map to 0 and n, and scaling keeps order and stays within 0..n for values in range; a truth value survives conversion to a check state and back.",
  ["inputs"], "every integer, percentage and value in the bounds",
  "Rounding makes individual values drift (29% became 28%); tests try the ends and the middle.", ["Converter.py"],
  [("scaled integers", "Converter.py:FloatToScaledIntegerConverter"), ("percent", "Converter.py:FloatToPercentStringConverter"), ("integers", "Converter.py:IntegerToStringConverter")],
  "unbounded integers for text; n in 1..1000 (five values), four ranges, all integers 0..n, values multiples of 2^-10; percentages -1000..1000")
P("C17", "Text is parsed to the value it denotes",
  "Tolerant float parsing returns the value of the leading number of the text (sign, digits, period or comma as decimal point, exponent; surrounding spaces ignored) and 0 if there is none, never failing; strict parsing returns the number of a well-formed text, in locales with period or comma decimal point. A physical value text denotes its number divided by the multiplier. "
  "With pass-none, None and empty text mean None both ways. Exactly the texts of random (version 4) uuids, in any case and with surrounding spaces, become that uuid; others become None. A moment without timezone survives conversion to text and back.",
  ["inputs"], "every text up to the length bound",
  "Texts typed by users are arbitrary; hand-written examples do not cover the grammar.", ["Converter.py"],
  [("float parsing", "Converter.py:FloatToStringConverter.convert_back"), ("physical values", "Converter.py:PhysicalValueToStringConverter"), ("uuid", "Converter.py:UuidToStringConverter"), ("dates", "Converter.py:DatetimeToStringConverter")],
  "texts up to 4 (thorough 5) characters of number alphabets; uuid texts of 35..37 characters; locale and datetime by contract")
P("C18", "A property binding keeps source and target in step",
  "Each change of the bound source property reaches the target of every binding to it exactly once as the converted value, or as the fallback if the value is missing; changes of other properties do not; reading the target value gives the same. Updating from the target stores the back converted and then validated value in the source. A range validator keeps values inside its optional limits, leaves values inside unchanged and moves others to the nearest limit. After closing, the binding neither touches the target nor the source.",
  ["histories", "inputs"], "every history of source changes, target updates and closing; every value, limit, converter and fallback configuration",
  "The combination of converter, validator, fallback, missing values and closing is a product that tests sample at a few points.", ["Binding.py", "Validator.py"],
  [("target updates", "Binding.py:PropertyBinding"), ("source updates", "Binding.py:Binding.update_source"), ("range", "Validator.py:IntegerRangeValidator.validate")],
  "histories of 4 (thorough 5) operations, unbounded integers or None")
P("C19", "Element, attribute and list bindings follow their part of the source",
  "A tuple binding shows the bound element (converted) or the fallback if it is missing or None, and an update replaces only that element in a new tuple, extending it with missing values if needed. An attribute binding shows and updates only the bound attribute, in place or through the supplied function. A list binding relays every insertion and removal of its list, and no other, so that the target list equals the source list. After closing, none of them acts.",
  ["histories", "inputs"], "every history of source changes, target updates and closing, every tuple length and position",
  "Length and index relations and the in-place/functional distinction multiply with the histories.", ["Binding.py"],
  [("tuples", "Binding.py:TuplePropertyBinding"), ("attributes", "Binding.py:PropertyAttributeBinding"), ("lists", "Binding.py:ListBinding")],
  "tuples up to 3 elements, lists up to 2 (thorough 3) items, histories of 2-3 (3-4) operations, unbounded integers")
P("C20", "A property model announces exactly its changes",
  "Assigning a value to a property model that differs (by its comparison, with None differing from everything else and never passed to the comparison) stores it and announces it once to listeners and then once to the callback, with the new value already in place; assigning an equal value does nothing. An observable's notifications fire exactly the event of their kind once with the key, item and index given.",
  ["histories", "inputs"], "every sequence of assigned values and every comparison",
  "Missed or duplicate announcements depend on the previous value, None and custom equality.", ["Model.py", "Observable.py"],
  [("assignment", "Model.py:PropertyModel.value"), ("notifications", "Observable.py:Observable")],
  "6 (thorough 7) assignments of unbounded integers or None, default and custom comparison")
P("C21", "Derived streams always show the function of their current inputs",
  "A value stream fires exactly when its value changes; a map stream's value is always the function of its input and fires exactly when that changes; a combined stream always holds the latest value of every input and fires once per input change; a concatenated stream shows the stream made for the current item and ignores earlier ones; a property stream shows the property of the current source object and fires once per (comparison) change; a stream model follows its stream. "
  "Each stream holds one reference to each of its inputs while it lives, releases it when it is no longer referenced, and is then silent.",
  ["histories", "inputs"], "every history of input changes and switches, all values",
  "Stale inner streams, missed initial values and reference leaks show only after particular sequences of switches.", ["Stream.py", "Model.py", "ReferenceCounting.py"],
  [("map", "Stream.py:MapStream"), ("combine", "Stream.py:CombineLatestStream"), ("concatenate", "Stream.py:ConcatStream"), ("property", "Stream.py:PropertyChangedEventStream"), ("model", "Model.py:StreamValueModel")],
  "histories of 2-3 (thorough 3-5) operations, up to 2 (3) inputs, unbounded integers")
P("C22", "Timed streams deliver the latest value within one period and never a stale one",
  "A debounce stream and a sample stream fire only the latest input value at that moment, at most once per period, fire the latest input within one period after it stopped changing (also if it was set by a listener during a firing), fire nothing if nothing changed, and nothing after closing. A function stream model ends with the value of the last function however the evaluations finish, and never goes back to the value of an earlier function.",
  ["schedules", "histories", "inputs"], "every interleaving of inputs, elapsed time, closing and completion order of evaluations",
  "Timing relative to the pending timer and completion order of evaluations are schedules; a test runs one of them.", ["Stream.py", "Model.py"],
  [("debounce", "Stream.py:DebounceStream"), ("sample", "Stream.py:SampleStream"), ("evaluation", "Model.py:FuncStreamValueModel")],
  "histories of 4 (thorough 6) operations; 3 (4) functions finishing in any order; asyncio's own loop on virtual time")
P("C23", "Structured models hold, announce and copy values faithfully",
  "A field or record model holds the value given (or else its default); assigning a different value announces it once, from the field and from every record or array containing it, and assigning an equal value announces nothing. An array model behaves as the list of its items under every insertion, removal, pop, clear and search, with one announcement of the right kind, index and item per change, and keeps observing exactly the items it contains. "
  "Converting a model to a dictionary and building or copying from it gives equal values (fields missing in a dictionary get their default when building and are left alone when copying); dictionaries, models of one schema and deep copies, which are equal, are independent of each other. After closing, models are silent.",
  ["histories", "inputs"], "every history of field and array changes, all values",
  "Index bookkeeping of item listeners goes wrong only for particular sequences of insertions and removals; nesting multiplies them.", ["StructuredModel.py"],
  [("fields", "StructuredModel.py:FieldPropertyModel"), ("records", "StructuredModel.py:RecordModel"), ("arrays", "StructuredModel.py:ArrayModel"), ("construction", "StructuredModel.py:build_model")],
  "records of up to 3 fields and one nested level, arrays up to 3 items, histories of 2-3 (thorough 3-4) operations, unbounded integers")
P("C03", "Events can be used from several threads",
  "While one thread fires an event or takes a vote with it, other threads may fire it, take votes, add listeners, close listeners and drop them or their owners: every listener that stays attached is called exactly once for each firing, no listener is called twice for one firing or vote, a vote gives the answer of the listeners that stay attached whatever happens to the others (unless those vote too), no operation fails, and afterwards exactly the remaining listeners are attached and called.",
  ["schedules"], "every interleaving of firing, listening, closing and dropping",
  "Lost or doubled calls need a switch inside the snapshot of the listeners; a test runs one schedule.", ["Event.py"],
  [("listening", "Event.py:Event.listen"), ("firing", "Event.py:Event.fire")],
  "2 threads with up to 2 preemptions (thorough: 3 preemptions, or 3 threads with 2) at any source line, store or iteration step")
P("C24", "Persistent objects survive being written and read, and copied",
  "A persistent object writes a dictionary with its type, id, every property that has a value (converted, under its storage key), its items and its related objects in order; an object of the same class reading that dictionary has the same state, ids included, at every level, and writes the same dictionary again. A deep copy has the same state with ids of its own. Dictionaries, copies and assigned or returned (copy-on-read) values, and lists of related objects handed out, are independent of the object. "
  "A property has the (validated) value last assigned and counts each assignment as one modification; read-only properties refuse assignment.",
  ["inputs", "histories"], "every combination of property values, kinds, missing values and related objects",
  "Round trips depend on every property kind, missing values and nesting at once; the existing tests write and read nothing.", ["Persistence.py"],
  [("writing", "Persistence.py:PersistentObject.write_to_dict"), ("reading", "Persistence.py:PersistentObject.read_from_dict"), ("properties", "Persistence.py:PersistentProperty"), ("copying", "Persistence.py:PersistentObject.deepcopy_from")],
  "seven property kinds, item, two relationships of up to 2 objects, one nested level; unbounded integers or None; properties with a default are not set to None")
P("C25", "Storage always mirrors the persistent object",
  "With a storage handler that applies every call it gets to a dictionary, the stored dictionary equals what the object would write after every change of a property at any level, every item set, replaced or cleared, and every related object inserted or removed. Each change counts as one modification of the object changed and of each of its ancestors and of no other, and is announced once. "
  "Exactly the objects contained in an object in a context are registered in that context; a removed or replaced object has no parent or context and no longer affects the storage; after an object left its context, nothing below it does.",
  ["histories", "inputs"], "every history of changes at every level",
  "A storage that drifts from the objects loses user data, and only particular sequences (clear under another key, replace then change) make it drift.", ["Persistence.py"],
  [("property changes", "Persistence.py:PersistentObject._update_persistent_object_context_property"), ("items", "Persistence.py:PersistentObject.set_item"), ("relationships", "Persistence.py:PersistentObject.insert_item"), ("locating", "Persistence.py:PersistentObject.get_accessor_in_parent"), ("context", "Persistence.py:PersistentObject.persistent_object_context")],
  "up to 1 (thorough 2) related objects, one nested level, histories of 2 (3) operations")
P("C26", "The persistent object context tracks registrations and routes changes",
  "Subscribers to an id hear of each registration of that object exactly once, immediately if it is already registered, and of its unregistration, which ends the subscription; each registration and unregistration is announced once by its context; exactly registered objects that are alive can be looked up, and the context keeps none alive. Each storage call for an object reaches, once and unchanged, the storage of its nearest ancestor (or itself) that has one, and its answer is returned (properties as a copy).",
  ["histories"], "every history of registrations, unregistrations and subscriptions, every level of ownership",
  "Order of subscription and registration and nested subscriptions multiply beyond the four existing tests.", ["Persistence.py"],
  [("registration", "Persistence.py:PersistentObjectContext.register"), ("subscription", "Persistence.py:PersistentObjectContext.subscribe"), ("storage", "Persistence.py:PersistentObjectContext._get_persistent_storage_for_object")],
  "2 objects, histories of 4 (thorough 6) operations, three levels")
P("C27", "The registry finds exactly the registered components, best first",
  "The components of a type are exactly those registered for it and not unregistered from it, whatever the history; the single component of a type is one with the highest priority (50 unless it has its own), or None if there is none. Each registration and unregistration is announced once with the component and exactly the types concerned, also when unregistering from all types; existing components can be announced again, each once, also if listeners register or unregister components meanwhile; announcements are made when the change is in effect. An unregistered component is not kept alive. Registering twice for a type, or unregistering what is not registered, is refused and changes nothing.",
  ["histories", "inputs"], "every history of registrations, every priority",
  "Priorities and partial unregistration interact with set order; tests use at most two components without priorities.", ["Registry.py"],
  [("registration", "Registry.py:ComponentManager.register"), ("unregistration", "Registry.py:ComponentManager.unregister"), ("choice", "Registry.py:get_component")],
  "3 components, 2 types, histories of 3 (thorough 4) operations, unbounded integer priorities, both set orders")
P("C28", "Queued tasks run once and in order; task sets run the latest of each key",
  "Performing a task queue runs exactly the tasks queued before, once each and in order, leaving those queued meanwhile and, if a task fails, those after it; clearing runs none. Performing a task set runs exactly the latest uncleared task of each key, once. Both hold when tasks are added, cleared and performed by several threads: no task is lost or run twice, and nothing blocks or fails.",
  ["histories", "schedules"], "every history of operations and every interleaving of threads",
  "Losing a task takes a switch between copying and clearing; tests do not cover this module.", ["Process.py"],
  [("queue", "Process.py:TaskQueue"), ("set", "Process.py:TaskSet")],
  "histories of 3 (thorough 5) operations; 3 threads with 1 (2) preemptions")
P("C29", "Reference counts are exact and the last release is announced once",
  "The reference count is the number of references added and not removed, also by several threads and by with blocks left by an exception; the object is told exactly once, when the last reference is removed for the first time, with the count at zero; removing a reference that does not exist is refused.",
  ["histories", "schedules"], "every history of references and every interleaving of threads",
  "A lost update needs a switch inside the increment.", ["ReferenceCounting.py"],
  [("adding", "ReferenceCounting.py:ReferenceCounted.add_ref"), ("removing", "ReferenceCounting.py:ReferenceCounted.remove_ref")],
  "histories of 4 (thorough 7) operations; 2 threads with 2 (3) preemptions")
P("C30", "A thread pool runs every function once and none after it is closed",
  "Every function queued in a pool with threads is run exactly once, whether or not others fail, unless the pool is closed before; closing returns when no function is running, ends the threads without deadlock, and no function runs afterwards, also if functions are being queued while it is closed. Without threads, running one runs the oldest function, running all runs every function in order, including those queued meanwhile.",
  ["schedules", "histories"], "every interleaving of queueing, workers and closing",
  "Closing races with workers and queueing; no tests exist.", ["ThreadPool.py"],
  [("pool", "ThreadPool.py:ThreadPool"), ("tasks", "ThreadPool.py:ThreadPoolTask")],
  "1 or 2 workers (up to 18, thorough 28, in a fixed order), 2 (thorough 3) functions, 1 (up to 3) preemptions; histories of 3 (5) operations without threads")
P("C31", "A thread dispatcher runs after every trigger, not too often, and never hangs",
  "After every trigger the function is run (unless the dispatcher is closed first); it is never run more often than triggered, twice at the same time, or sooner after the previous run than the minimum interval. A waiting trigger returns once the function was run after it, also if the function fails or the dispatcher is closed meanwhile. Closing ends the thread without deadlock, and then the function is neither running nor run again.",
  ["schedules", "histories"], "every interleaving of triggers, runs, elapsed time and closing",
  "Lost wake-ups between the event, the interval and closing are schedules no test runs.", ["ThreadPool.py"],
  [("dispatcher", "ThreadPool.py:ThreadDispatcher")],
  "2 operations with 2 preemptions, 3 with a slow function and 1 (thorough: 2-4 operations, up to 3 preemptions); one other thread waiting")
P("C32", "A promise is evaluated once, on demand",
  "The function of a promise is called on first access of the value and never again once it succeeded, also when several threads access it at once; every access returns what it returned; a failure reaches the accessing caller and the next access tries again. The optional value never evaluates, is None before and the value afterwards.",
  ["schedules", "histories"], "every history of accesses, failures and every interleaving of threads",
  "Double evaluation needs two threads meeting in the evaluation; no tests exist.", ["Promise.py"],
  [("promise", "Promise.py:Promise")],
  "histories of 3 (thorough 5) accesses; 3 threads with 2 (3) preemptions")
P("C33", "Applying a recording reproduces the recorded changes",
  "Applying what a recorder recorded to an object equal to the recorded one before recording gives the state the recorded object had at the end of recording: property changes at every level, insertions and removals of related objects at any position, items set and cleared; properties that are not recordable are left alone. Changes after the recorder was closed are not applied, a recording can be applied again, and objects it creates are new.",
  ["histories", "inputs"], "every recorded history of changes at every level",
  "Positions shift while recording, so that replay goes to the wrong object only after particular sequences; no tests exist.", ["Recorder.py"],
  [("recording", "Recorder.py:Recorder"), ("applying", "Recorder.py:Recorder.apply")],
  "item and up to 2 related objects, one nested level, histories of 2 (thorough 4) operations, unbounded integers")
P("C35", "Closing an event loop finishes its tasks first",
  "Closing an event loop waits until every task on it has finished, also tasks that fail, that wait for each other or for an executor, and tasks started at once by others; none is cancelled, a failure stays with its task and does not reach the closing code, the default executor is shut down with its jobs done, and then the loop is closed.",
  ["histories", "schedules"], "every combination of tasks and states of tasks",
  "Whether a task is lost depends on when it finishes relative to the others; no tests exist.", ["Process.py"],
  [("closing", "Process.py:close_event_loop")],
  "up to 2 (thorough 3) tasks of nine kinds; asyncio's own loop on virtual time; tasks started later by other tasks are not claimed")
P("C36", "Derived lists can be used by several threads",
  "While one thread changes the container of a filtered, mapped or flattened list or one of its items, another may read the list, set its filter, sort key or direction, or group changes of it; different threads may change the children of different containers of a flattened list. No operation fails, what is read is the list before or after a change, each notification fits the list as the previous ones left it, and in the end the list, a copy that followed the notifications and selections are as if the changes had been made one after the other.",
  ["schedules", "histories"], "every interleaving of a change with another change or a reading",
  "The lists are declared thread safe, but the tests use one thread; a lost or doubled item needs a switch within an update.", ["ListModel.py"],
  [("filtered", "ListModel.py:FilteredListModel"), ("mapped", "ListModel.py:MappedListModel"), ("flattened", "ListModel.py:FlattenedListModel")],
  "lists of 3 items, 2 threads, 1 (thorough 2) preemptions")
