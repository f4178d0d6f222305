from .. import driver, strmap
FNS = ["rcutils_string_map_" + x for x in ("init", "fini", "get_capacity", "get_size", "reserve", "clear", "set", "set_no_resize", "unset", "key_exists", "key_existsn", "get", "getn", "get_next_key", "copy")]
TECHNIQUE = "path-sensitive dataflow (abstract interpretation of LLVM IR) with per-iteration loop facts: found/missing verdicts are matched to text comparison results over covered index ranges"
NOTE = "set and copy are decided on top of the decided behaviour of set_no_resize, reserve, get and get_next_key. Which slot a previously returned key occupies is not tracked by get_next_key's check."
RULE = ("found only if comparison facts establish that the whole key and the whole stored key are equal; missing only if every slot was refuted or the map is empty; value-only replacement, +1/-1/0 count changes, full copies into an empty slot; "
        "failed operations leave every slot as it was; reserve keeps max(request, count) slots, empties new ones and moves pairs out of removed ones; clear releases both texts of every pair")
EXPLAIN = "text comparison facts, slot contents and loop coverage established on every path summary of the string map operations"
def check(o, tier): driver.run(o, strmap.c04, FNS, {"merge": False})
