from .. import driver, containers
FNS = ["rcutils_hash_map_" + x for x in ("init", "fini", "get_capacity", "get_size", "set", "unset", "key_exists", "get", "get_next_key_and_data")]
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR) with per-iteration loop facts: found/missing verdicts are matched to comparison results, bucket selection terms and covered index ranges"
NOTE = "Array lists inside the map are inlined or summarised by C01. Search loops that do not use an index counter are reported as inconclusive."
RULE = ("found only if the user's comparison returned 0 and the hashes are equal, in the bucket hash mod capacity; missing only if the map or bucket is empty or every entry of the bucket was refuted; count changes by exactly +1/0/-1; "
        "copies have exactly the configured sizes; capacity is a power of two; growth moves every entry to the bucket its stored hash selects; iteration goes on from the previous key's position")
EXPLAIN = "comparison results, stored hash equalities, bucket terms and loop coverage established on every path summary of the hash map operations"
def check(o, tier): driver.run(o, containers.c03, FNS, {"merge": False})
