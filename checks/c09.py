"""C09: group membership stays consistent over any sequence of requests (model-based trace checking)."""
from common import *
from attitude import Orientation, create_groups
from attitude.orientation.grouped import GroupedOrientation, GroupedPlaneError, disable_orientations
from c07 import bits, snapshot

RULE = ("random histories of 4-14 grouping / disabling requests over 3-12 fits: valid requests (1..n members, several groups at once, copy on and off, same_plane), "
        "unknown identifiers, already-grouped members, groups of groups, the same member in two groups, members absent from the list; after every request the observed list "
        "is compared with a reference model and every object the caller still holds with its snapshot; non-trivial = history with at least one accepted and one rejected request; "
        "distinct by history of (request kind, outcome)")
CASES = dict(quick=1600, thorough=60000)
FILES = ["orientation/grouped.py"]


class Entry:
    """Model of one measurement or group."""
    def __init__(self, uid, members=None, disabled=False, data=None):
        self.uid, self.members, self.disabled, self.data = uid, members, disabled, data

    def is_group(self):
        return self.members is not None


def model_request(model, groups):
    """Reference semantics: the new model, or the exception type."""
    new = list(model)
    grouped = set(u for e in new if e.is_group() for u in e.members)
    for g in groups:
        for uid in g:
            e = next((x for x in new if x.uid == uid), None)
            if e is None:
                return KeyError
            if e.uid in grouped:
                return GroupedPlaneError
        if any(next(x for x in new if x.uid == u).is_group() for u in g):
            return GroupedPlaneError
        new = new + [Entry(None, members=list(g))]
        grouped |= set(g)
    return new


def check_list(m, objs, model, what):
    m.ok(len(objs) == len(model), "no_loss_or_duplication", "%s: %d objects for %d expected" % (what, len(objs), len(model)))
    m.ok(len(set(map(id, objs))) == len(objs), "objects_distinct", what)
    owner = {}
    for o, e in zip(objs, model):
        if e.is_group():
            m.ok(hasattr(o, "members"), "group_kept_in_place", what)
            m.ok([a.hash for a in o.members] == e.members, "members_in_order", "%s: %s expected %s" % (what, [a.hash for a in o.members], e.members))
            if e.uid is None:
                e.uid = o.hash
            m.ok(o.hash == e.uid, "group_identifier", what)
            for a in o.members:
                m.ok(id(a) not in owner, "at_most_one_group", "%s: %s listed twice" % (what, a.hash))
                owner[id(a)] = o
                m.ok(a.member_of is o, "member_points_to_its_group", "%s: %s" % (what, a.hash))
                x = [b for b in objs if b.hash == a.hash and not hasattr(b, "members")]
                if x:
                    m.ok(x[0] is a, "group_lists_the_objects_of_the_list", what)
            m.ok(o.member_of is None, "groups_are_not_members", what)
            m.ok(o.n == sum(a.n for a in o.members), "group_size", what)
        else:
            m.ok(not hasattr(o, "members") and o.hash == e.uid, "order_kept", "%s: %s expected %s" % (what, o.hash, e.uid))
            if e.data is not None:
                m.ok(bits(o.array) == e.data, "measurement_data_kept", what)
        m.ok(o.disabled == e.disabled, "disabled_flag", "%s: %s is %s" % (what, e.uid, o.disabled))
    for o in objs:
        if not hasattr(o, "members"):
            m.ok(o.member_of is owner.get(id(o)), "member_of_matches", "%s: %s" % (what, o.hash))


def state(objs):
    return [(id(o), snapshot(o), id(o.member_of), tuple(map(id, getattr(o, "members", ()))), [id(a.member_of) for a in getattr(o, "members", ())], o.disabled) for o in objs]


def near_miss(rng, ids):
    """An identifier no measurement has, often close to one that exists."""
    while True:
        u = str(rng.choice(ids))
        i = int(rng.integers(8))
        bad = str(rng.choice(["%08x" % int(rng.integers(2 ** 32)), u[:int(rng.integers(0, 8))], u + "0", u.upper(), " " + u, u[1:],
                              u[:i] + ("0" if u[i:i + 1] != "0" else "1") + u[i + 1:], u[::-1]]))
        if bad not in ids:
            return bad


def run_case(m, rng, idx):
    many = idx % 80 == 17
    k = int(rng.integers(100, 140)) if many else int(rng.integers(3, 13))
    objs = []
    while len(objs) < k:
        c = gen.cloud(rng, n=int(rng.integers(3, 12)), noise=.05, scale=100., dtypes=False)
        o = Orientation(c.arr)
        if o.hash not in [x.hash for x in objs]:
            objs.append(o)
    model = [Entry(o.hash, data=bits(o.array)) for o in objs]
    m.note(measurements=k)
    held = []         # (list object, list copy, state) the caller still holds
    hist = []
    accepted = rejected = 0
    for step in range(int(rng.integers(4, 15)) if not many else 3):
        free = [e.uid for e in model if not e.is_group() and e.uid not in [u for g in model if g.is_group() for u in g.members]]
        taken = [u for g in model if g.is_group() for u in g.members]
        gids = [e.uid for e in model if e.is_group()]
        kind = str(rng.choice(["group", "group", "group", "two", "unknown", "regroup", "nested", "overlap", "disable", "disable_unknown", "none", "drop", "iterators"]))
        if kind in ("disable", "disable_unknown"):
            ids = [e.uid for e in model]
            pick = [str(x) for x in rng.choice(ids, int(rng.integers(1, min(4, len(ids)) + 1)), replace=False)]
            if len(set(e.uid for e in model)) < len(model):
                continue
            hist.append((kind, len(pick)))
            m.note(history=hist)
            if kind == "disable":
                r = disable_orientations(objs, *pick)
                m.ok(r is objs or list(map(id, r)) == list(map(id, objs)), "disable_returns_the_list")
                for e in model:
                    if e.uid in pick:
                        e.disabled = True
                check_list(m, objs, model, "after disabling %s" % pick)
            else:
                m.raises(KeyError, lambda: disable_orientations(objs, near_miss(rng, ids)), "disable_unknown")
                check_list(m, objs, model, "after failed disabling")
            for orig, lcopy, st in held:
                m.ok(state(lcopy) == st, "earlier_objects_untouched", "after disabling")
            continue
        if kind == "drop" and len(free) > 3:
            # the caller removes a free measurement from the list
            u = str(rng.choice(free))
            i = [e.uid for e in model].index(u)
            objs = objs[:i] + objs[i + 1:]
            model = model[:i] + model[i + 1:]
            hist.append(("drop", 0))
            continue
        if kind == "drop" and taken and rng.random() < .7:
            # a member leaves the list but its group stays
            u = str(rng.choice(taken))
            i = next((j for j, e in enumerate(model) if e.uid == u), None)
            if i is None:
                continue
            objs = objs[:i] + objs[i + 1:]
            model = model[:i] + model[i + 1:]
            hist.append(("drop_member", 0))
            kind = "group"
            free = [f for f in free if f != u]
        n1 = min(len(free), int(rng.integers(1, 5)))
        pick = [str(x) for x in rng.permutation(free)[:n1]] if free else []
        rest = [u for u in free if u not in pick]
        groups = [pick] if pick else []
        if kind == "two" and rest:
            groups.append([str(x) for x in rng.permutation(rest)[:int(rng.integers(1, 4))]])
        elif kind == "unknown":
            bad = near_miss(rng, [e.uid for e in model])
            g = list(pick)
            g.insert(int(rng.integers(len(g) + 1)), bad)
            groups = [g] if rng.random() < .5 or not rest else [rest[:1], g]
        elif kind == "regroup" and taken:
            g = list(pick)
            g.insert(int(rng.integers(len(g) + 1)), str(rng.choice(taken)))
            groups = [g]
        elif kind == "nested" and gids:
            g = list(pick)
            g.insert(int(rng.integers(len(g) + 1)), str(rng.choice(gids)))
            groups = [g]
        elif kind == "overlap" and pick:
            groups = [pick, [pick[0]] + rest[:1]] if rng.random() < .5 else [pick, rest[:1] + [pick[-1]]]
        elif kind == "none":
            groups = []
        copy_on = bool(rng.random() < .75)
        same = bool(rng.random() < .25)
        kw = {}
        if not copy_on:
            kw["copy"] = False
        elif rng.random() < .3:
            kw["copy"] = True
        if same or rng.random() < .2:
            kw["same_plane"] = same
        want = model_request(model, groups)
        before = state(objs)
        lst = list(objs)
        req = [tuple(g) if rng.random() < .3 else list(g) for g in groups]
        if kind == "iterators":
            req = [iter(list(g)) for g in groups]
        hist.append((kind, tuple(len(g) for g in groups), copy_on, want.__name__ if isinstance(want, type) else "ok"))
        m.note(history=hist)
        m.state("request", kind, "copy" if copy_on else "in place", want.__name__ if isinstance(want, type) else "accepted")
        if isinstance(want, type):
            rejected += 1
            m.raises(want, lambda: create_groups(lst, *req, **kw), "rejected_request", "%s of %s" % (kind, groups))
            # a partial effect is only possible in place, and only for complete groups before the bad one
            if copy_on:
                m.ok(len(lst) == len(objs) and all(a is b for a, b in zip(lst, objs)), "rejected_list_untouched")
                m.ok(state(objs) == before, "rejected_objects_untouched", "%s of %s" % (kind, groups))
            else:
                done = 0
                mod = model
                while done < len(groups):
                    t = model_request(model, groups[:done + 1])
                    if isinstance(t, type):
                        break
                    mod, done = t, done + 1
                # no half-made group is left behind
                for o in lst[:len(objs)]:
                    m.ok(o.member_of is None or o in list(o.member_of.members), "no_dangling_membership", o.hash)
                if done == 0:
                    m.ok(len(lst) == len(objs), "rejected_list_untouched")
                    check_list(m, lst, model, "after a rejected request")
                else:
                    return close_case(m, hist, accepted, rejected)
        else:
            accepted += 1
            out = create_groups(lst, *req, **kw)
            m.ok(all(a is b for a, b in zip(lst[:len(objs)], objs)), "callers_list_order")
            if copy_on:
                m.ok(len(lst) == len(objs), "callers_list_not_modified")
                m.ok(state(objs) == before, "callers_objects_not_modified", "%s of %s" % (kind, groups))
                m.ok(not set(map(id, out)) & set(map(id, objs)), "result_is_a_copy")
                held.append((objs, list(objs), state(objs)))
            else:
                m.ok(all(a is b for a, b in zip(out, objs)), "in_place_keeps_the_objects")
            m.ok(isinstance(out, list), "result_is_a_list")
            new = [Entry(e.uid, e.members, e.disabled, e.data) for e in want]
            check_list(m, out, new, "after %s %s copy=%s" % (kind, groups, copy_on))
            for o, e in zip(out[len(model):], groups):
                m.ok(o.same_plane == same, "option_passed_on")
            objs, model = list(out), new
        # the caller's earlier lists and objects never change afterwards (copies are independent)
        for orig, lcopy, st in held:
            m.ok(len(orig) == len(lcopy) and all(a is b for a, b in zip(orig, lcopy)), "earlier_list_untouched")
            m.ok(state(lcopy) == st, "earlier_objects_untouched", "after %s" % (hist[-1],))
    # direct construction of a group from something ungroupable claims nothing
    plain = [o for o in objs if not hasattr(o, "members")]
    groups_ = [o for o in objs if hasattr(o, "members")]
    if groups_ and plain:
        b = state(objs)
        a = [plain[0], groups_[0]]
        if rng.random() < .5:
            a = a[::-1]
        m.raises(GroupedPlaneError, lambda: GroupedOrientation(*a), "direct_nested_group")
        m.ok(state(objs) == b, "direct_rejection_claims_nothing")
    close_case(m, hist, accepted, rejected)


def close_case(m, hist, accepted, rejected):
    if accepted and rejected:
        m.nontrivial(*hist)
