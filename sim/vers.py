"""Other versions of the simulated application, for the property about upgrades: the same structures under other type names, with
their fields in another order and, in one version, further fields.  Generates types_<v>.h and model_<v>.c from types.h and model.c."""
import os, random, re
API = "gen_cfg gen_reset gen_root gen_blocks canon ownership_check canon_compare canon_equal raw_hash gen_scribble mutate_one root_mty leaf_pick leaf_fill".split()
KEEP_ORDER = {"sv_dwrap_t"}	# the first field of a structure is what counts when it is a discriminator
EXTRA = ["(int, %s)", "(string_t, %s)", "(double *, %s)", "(sv_color_t, %s)", "(struct sv_node_t *, %s)", "(char, %s, [5])", "(mr_uint128_t, %s)", "bool %s"]

def split_args (s):
    """top-level comma separated arguments"""
    out, depth, cur, q = [], 0, "", None
    for c in s:
        if q:
            cur += c
            if c == q:
                q = None
            continue
        if c in "\"'":
            q = c
        if c in "([{":
            depth += 1
        if c in ")]}":
            depth -= 1
        if c == "," and depth == 0:
            out.append (cur.strip ()); cur = ""
        else:
            cur += c
    if cur.strip ():
        out.append (cur.strip ())
    return out

def definitions (text):
    """(kind, name, arguments) of the structures and unions in the order they are defined"""
    for m in re.finditer (r"^TYPEDEF_(STRUCT|UNION) \(", text, re.M):
        i, depth = m.end (), 1
        while depth:
            depth += {"(": 1, ")": -1}.get (text[i], 0)
            i += 1
        a = split_args (text[m.end ():i - 1])
        yield m.group (1), a[0], a[1:]

def generate (sim, gen, ver, seed, extras):
    """ver: the letter that replaces the v of sv_"""
    text = open (os.path.join (sim, "types.h")).read ()
    text = re.sub (r"/\*.*?\*/", "", text, flags=re.S)
    defs = list (definitions (text))
    names = [n for k, n, a in defs]
    ren = re.compile (r"\b(%s)\b" % "|".join (sorted (names, key=len, reverse=True)))
    new = lambda s: ren.sub (lambda m: "s" + ver + m.group (1)[2:], s)
    rnd = random.Random (seed)
    out = ["/* generated by vers.py */", "#ifndef TYPES_%s_H" % ver, "#define TYPES_%s_H" % ver, '#include "types.h"']
    out += ["struct %s;" % new (n) for k, n, a in defs if k == "STRUCT"]
    serial = 0
    for kind, name, args in defs:
        if kind == "STRUCT" and name not in KEEP_ORDER:
            groups, anon = [], []
            i = 0
            while i < len (args):
                if args[i].startswith ("ANON_UNION"):
                    j = i
                    while not args[j].startswith ("END_ANON_UNION"):
                        j += 1
                    groups.append (args[i:j + 1])
                    anon.append (len (groups) - 1)
                    i = j + 1
                else:
                    groups.append ([args[i]])
                    i += 1
            if anon:
                # documents name a union without a name by its position: it stays where it is
                assert len (anon) == 1
                head, tail = groups[:anon[0]], groups[anon[0] + 1:]
                rnd.shuffle (head); rnd.shuffle (tail)
                groups = head + [groups[anon[0]]] + tail
                lo = anon[0] + 1
            else:
                before = list (groups)
                for t in range (5):
                    rnd.shuffle (groups)
                    if groups != before:
                        break
                lo = 0
            if extras:
                for t in range (rnd.randint (1, 3)):
                    serial += 1
                    x = EXTRA[rnd.randrange (len (EXTRA))] % ("s%s_extra%d" % (ver, serial))
                    groups.insert (rnd.randint (lo, len (groups)), [x])
            args = [a for g in groups for a in g]
        out.append (new ("TYPEDEF_%s (%s,\n  %s)" % (kind, name, ",\n  ".join (args))))
    out.append ("#endif")
    open (os.path.join (gen, "types_%s.h" % ver), "w").write ("\n".join (out) + "\n")
    m = open (os.path.join (sim, "model.c")).read ()
    m = new (m)
    m = re.sub (r"^int sv_fn_\w \(int x\).*\n", "", m, flags=re.M)
    pre = "".join ("#define %s %s_%s\n" % (a, a, ver) for a in API)
    m = '#include "core.h"\n#include "types_%s.h"\n%s' % (ver, pre) + m
    open (os.path.join (gen, "model_%s.c" % ver), "w").write (m)
    with open (os.path.join (gen, "names_%s.h" % ver), "w") as f:
        f.write ("".join ('X ("%s", "%s")\n' % (n, new (n)) for n in names))

if __name__ == "__main__":
    import sys
    generate (os.path.dirname (os.path.abspath (__file__)), sys.argv[1], "w", 11, False)
    generate (os.path.dirname (os.path.abspath (__file__)), sys.argv[1], "x", 12, True)
