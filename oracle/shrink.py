"""Greedy minimisation of a description: drop list elements and optional attributes while the failure persists."""
import copy
import time

KEEP = {"k", "name", "version", "description", "address_unit_bits", "width", "base_address", "address_offset", "values", "peripherals",
        "revision", "endian", "nvic_prio_bits", "vendor_systick_config", "regions", "base", "limit", "access", "offset", "size",
        "usage", "value"}
LISTS = ("peripherals", "children", "fields", "containers", "values", "address_blocks", "interrupts", "regions")


def shrink(spec, fails, budget=6.0):
    end = time.time() + budget
    cur = copy.deepcopy(spec)

    def attempts(root):
        stack = [root]
        while stack:
            e = stack.pop()
            for k in LISTS:
                if isinstance(e.get(k), list):
                    for i in range(len(e[k])):
                        yield e, k, i
                    stack += [x for x in e[k] if isinstance(x, dict)]
            for k in list(e):
                if isinstance(e[k], dict):
                    stack.append(e[k])
                if k not in LISTS and (k not in KEEP or (k in ("size", "access", "description") and e.get("k") in ("peripheral", "cluster", "register", "field", "enumv"))):
                    yield e, k, None

    changed = True
    while changed and time.time() < end:
        changed = False
        for e, k, i in list(attempts(cur)):
            if time.time() > end:
                break
            if i is None:
                if k not in e:
                    continue
                old = e.pop(k)
            else:
                if i >= len(e.get(k, [])):
                    continue
                old = e[k].pop(i)
            if fails(cur):
                changed = True
            elif i is None:
                e[k] = old
            else:
                e[k].insert(i, old)
    return cur
