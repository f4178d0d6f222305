from .. import driver, containers
FNS = ["rcutils_array_list_" + x for x in ("init", "fini", "add", "set", "remove", "get", "get_size")]
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR): field values at return against entry, and exact byte ranges of every copy into the element storage"
NOTE = "Every path of every list operation is an obligation, for all sizes, capacities, element sizes and indices. Element copies done by a loop instead of one block copy are reported as inconclusive."
RULE = ("success requires index < size and non-null arguments; size changes by exactly the operation's delta; copies cover exactly [index*element, (index+1)*element) (removal: everything behind moves down by one); "
        "failure leaves size and storage untouched; size <= capacity and capacity*element <= storage hold at every return")
EXPLAIN = "field equalities and copy ranges proved with linear arithmetic over products of size and element size on every path summary of the list operations"
def check(o, tier): driver.run(o, containers.c01, FNS)
