HOW = {
"C01": "A reference list of (token, arguments expected) is kept by the harness; after every firing the calls received are compared with it: who, how often, order, arguments (symbolic integers, kept as terms). Weak references and owners are real: tokens are dropped and collected during the path.",
"C02": "Answers of listeners are symbolic booleans (or values of other types with symbolic truth); z3 decides for which answer vectors each listener is asked; oracle: the first deciding answer. Failing subsets are symbolic choices; stderr is captured.",
"C03": "Each thread's operation and the schedule are symbolic; oracle: per firing, each listener attached throughout is called once, none twice, and the final listeners are exactly those left.",
"C04": "Selected indexes, anchor and arguments are symbolic integers; the real sets become symbolic sets. Oracle: set algebra on the state before (union, range, singleton, empty), anchor membership, and one event iff the set changed.",
"C05": "As C04; oracle: index mapping i -> i (+1, -1) by comparison with the position, for all relative orders at once.",
"C06": "Oracle: a plain Python list under the same operations, and a copy maintained only from the notifications.",
"C07": "Keys and visibility of all items are symbolic, so one path stands for all key values with the same order; oracle: the container's matching items, required to be a sorted (by key and direction) or order-preserving arrangement of exactly those.",
"C08": "The histories of C07, observed by a replica that applies each notification and checks index and item as it comes, inside balanced begin/end announcements.",
"C09": "Oracle: one token per source item, created by map and released by unmap exactly once; replica by notifications; selection by identity of items.",
"C10": "Oracle: concatenation of the children of the containers; replica; selection by identity of items.",
"C11": "Attributes, constants, years, months, days and texts are symbolic; oracle: the propositional formula of the filter, compared by z3 (equivalence of two terms), for the filter and its deep copy.",
"C12": "All coordinates symbolic; every accessor and operation is compared with its defining expression as one z3 validity query each.",
"C13": "As C12 over multiples of 2^-8 (exact double arithmetic), ratios with rounding variables.",
"C14": "Symbolic positions and extents; oracle: relative position, ratio, centre and containment identities; rotation against the rotation matrix with the same sine and cosine; square root by contract.",
"C15": "Both limits symbolic; the power of ten is found by forking over log10's contract; oracle: enclosure, evenness, 1/2/5 spacing, labels parsed back.",
"C16": "Symbolic integers and values through float arithmetic with rounding variables; oracle: equality after the round trip, or distance at most one step.",
"C17": "Texts of symbolic length with symbolic characters, through the real regular expressions (compiled to a symbolic matcher); oracle: an independent recogniser of the number grammar in the harness, value compared as rational.",
"C18": "Symbolic values, converter (shift), validator limits and fallbacks; oracle: value of source and list of target calls after each operation.",
"C19": "As C18 for elements, attributes and lists (replica).",
"C20": "Symbolic values and comparison; oracle: the number and content of announcements given the previous value.",
"C21": "Symbolic inputs, functions with merges (division), histories symbolic; oracle: function of the current inputs and announcements exactly on change; reference counts of the inputs.",
"C22": "Virtual time on asyncio's loop; order of inputs, waiting, closing and completions symbolic; oracle: the latest input at each firing, deadlines in periods. sample_threads uses the scheduler.",
"C23": "A mirror of plain dictionaries and lists under the same operations; announcements counted at every level; copies compared by value and by independence.",
"C24": "Symbolic values of every property kind; oracle: the expected dictionary built from the public accessors, state equality after reading, and ids.",
"C25": "A storage handler that applies calls to a dictionary; oracle: dictionary equals write_to_dict() after each operation at any level; counts, announcements, registration and parents as sets of objects.",
"C26": "Reference registry of objects and subscriptions; oracle: calls expected per operation; forwarding by recorded calls at each level.",
"C27": "Symbolic priorities; both orders of sets; oracle: reference sets per type, maximum priority by z3.",
"C28": "Histories and schedules; oracle: each task's number of runs, order within a queue, latest per key.",
"C29": "Histories and schedules; oracle: a counter, and one announcement at zero.",
"C30": "Schedules of workers, a queueing and a closing thread; oracle: runs per function, none running or starting after close returned, no deadlock.",
"C31": "Schedules and virtual time; oracle: a run begins after each trigger (unless closed), run count, spacing between runs, waiting triggers return, no deadlock.",
"C32": "Histories, failures and schedules; oracle: successful evaluations at most one, values returned equal it.",
"C33": "Record on one object, apply to an equal one; oracle: state equality at every level (symbolic values) with the recorded object at the end of recording.",
"C34": "As C15 in exponents; log and pow by contract.",
"C35": "Virtual time on asyncio's loop; kinds of tasks symbolic; oracle: every task done with its own result or failure, executor shut down before the loop is closed.",
"C36": "Schedules of two threads symbolic (scheduler), operations symbolic; oracle: a follower applying each notification to its own copy, and the list recomputed from the container in the end.",
}
