"""P31: a simulation reads its deck and writes its waveform file, and that is all."""
from checks_wave import *
from checks_size import call_map
from checks_det import det_name, last
from checks_cards import *

DENY = (("std::fs::remove_", "removes"), ("std::fs::rename", "renames"), ("std::fs::copy", "copies over"), ("std::fs::hard_link", "makes a link"),
        ("std::os::unix::fs::symlink", "makes a link"), ("std::fs::soft_link", "makes a link"), ("std::fs::set_permissions", "changes permissions"),
        ("std::fs::File::set_", "changes a file"), ("std::process::Command", "starts a program"), ("std::net::", "uses the network"),
        ("std::env::set_", "changes the environment"), ("std::env::remove_var", "changes the environment"),
        ("std::os::unix::process", "replaces the program"), ("std::process::abort", "ends the program"))
MAKE = ("std::fs::File::create", "std::fs::File::create_new", "std::fs::File::options", "std::fs::write", "std::fs::OpenOptions::open", "std::fs::create_dir",
        "std::fs::create_dir_all", "std::fs::DirBuilder::create")
READ = ("std::fs::File::open", "std::fs::read_to_string", "std::fs::read", "std::fs::read_dir", "std::fs::read_link")
NORM = {"::".join(x.split("::")[-2:]): x for x in MAKE}


def p31(C):
    sites = []
    for which in ("lib", "bin"):
        prog = C.prog(which)
        bad = n = 0
        for f in prog.fns.values():
            for b in sorted(f.reach):
                t = f.blocks[b]["t"]
                if t[0] != "call" or not isinstance(t[1], dict):
                    continue
                n += 1
                d = det_name(t[1])
                wh = "%s (%s)" % (f.name, t[-1])
                for p, what in DENY:
                    if d.startswith(p):
                        bad += 1
                        C.bad("effects/" + what, "%s %s (%s)" % (name(f.name), what, d), wh)
                if d.startswith("std::process::exit") and which == "lib":
                    bad += 1
                    C.bad("effects/exit", "%s ends the program it is used by" % name(f.name), wh)
                if d.startswith(MAKE):
                    sites.append((which, f, b, d, wh))
                if d.startswith("std::fs::OpenOptions::") or d.startswith("std::fs::File::options"):
                    options(C, f, b, d, t, wh)
        C.ok("effects/" + which, "%d calls, none removes or renames a file, starts a program or uses the network" % (n - bad))
        C.runs.append({"entry": which, "note": "all calls", "steps": 0, "blocks": sum(len(f.blocks) for f in prog.fns.values()), "terms": 0,
                       "functions": sorted(f.name for f in prog.fns.values()), "unmodelled": []})
    prog = C.prog()
    # who makes files: the transient analysis only
    up = call_map(prog)
    tr = prog.fn("Engine::transient_analysis")
    rd = prog.fn("Reader::read")
    down = lambda f: reach_down(prog, f) if f is not None else set()
    from_tr, from_rd = down(tr), down(rd) | down(prog.fn("expander::expand") or prog.fn("expand"))
    for which, f, b, d, wh in sites:
        if which == "bin":
            C.bad("files/program", "the program itself makes a file (%s)" % d, wh)
        elif f.id in from_rd:
            C.bad("files/reading", "reading a deck makes a file or directory (%s)" % d, wh)
        elif f.id in from_tr:
            C.ok("files/analysis", d, wh)
        else:
            C.unk("files/other", "%s makes a file" % name(f.name), wh)
    if tr is not None:
        C.guard("files/paths", paths, C, prog)
    C.guard("reading", opened, C, prog, from_rd)


def reach_down(prog, f):
    out, st = set(), [f]
    while st:
        g = st.pop()
        if g.id in out:
            continue
        out.add(g.id)
        for b in g.reach:
            t = g.blocks[b]["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("id") in prog.fns:
                st.append(prog.fns[t[1]["id"]])
            for s in g.blocks[b]["s"]:
                if s[1][0] == "agg" and s[1][1][0] == "closure" and s[1][1][1] in prog.fns:
                    st.append(prog.fns[s[1][1][1]])
    return out


def options(C, f, b, d, t, wh):
    n = d.split("::")[-1]
    if n in ("append",) and len(t[2]) > 1 and t[2][1].get("c", {}).get("v") == 1:
        C.bad("files/append", "waveforms are added to what an earlier analysis left in the file", wh)
    if n == "create_new" and len(t[2]) > 1 and t[2][1].get("c", {}).get("v") == 1:
        C.bad("files/replaced", "an existing file is not replaced", wh)
    if n == "open":
        ns = {}
        for x in f.reach:
            y = f.blocks[x]["t"]
            if y[0] == "call" and isinstance(y[1], dict) and det_name(y[1]).startswith("std::fs::OpenOptions::") and len(y[2]) > 1:
                ns[last(y[1])] = y[2][1].get("c", {}).get("v")
        if ns.get("write") == 1 and ns.get("truncate") != 1 and not ns.get("create_new") and "append" not in ns:
            C.expect(False if "truncate" not in ns or ns["truncate"] == 0 else None, "files/truncate",
                     "what an earlier analysis left in the file is not removed", wh)


def paths(C, prog):
    """what is made is the waveform file and the directories leading to it"""
    S = Stamps(prog)
    R = TRun(C, S, "R")
    E, w = R.E, R.w
    fl = fields(prog, "Configuration")
    want = None
    for i in range(1, R.fn.argc + 1):
        if prog.types.get(prog.strip(R.fn.locals[i]), {}).get("n", "").endswith("Configuration"):
            want = R.c(w.fld(w.mk("sym", "p%d" % i, R.fn.locals[i]), 0, fl["wavefile"]))
    seen = 0
    for e in E.all_events("io"):
        n = e.data[0]
        if n not in NORM:
            continue
        seen += 1
        p = R.c(e.data[1][-1] if n == "OpenOptions::open" else e.data[1][0])
        ob = "files/" + n
        if n == "File::create_new":
            C.bad(ob, "an existing waveform file is not replaced", where(e))
            continue
        inside = set(subterms(p))
        if want is None or want not in inside:
            C.expect(False if want is not None and constant(p) else None, ob, "makes %s, which is not the waveform file of the configuration" % show(p)[:60], where(e))
            continue
        if n.startswith("fs::create_dir"):
            core = bare(p)
            up = core.op == "fld" and core.a[0].op == "app" and core.a[0].a[0] == "parent" and bare(core.a[0].a[1]) is want
            C.expect(True if up else False if core is want else None, ob, "makes a directory %s" % show(p)[:60], where(e), "the directory of the waveform file")
            if n == "fs::create_dir" and up:
                C.bad(ob, "only the last directory of the path is made", where(e))
        else:
            core = bare(p)
            C.expect(True if core is want else False if core.op in ("cat", "app") and not any(x.op == "φ" for x in inside) else None, ob,
                     "writes %s, not the waveform file of the configuration" % show(p)[:60], where(e), "the waveform file of the configuration")
    if not seen:
        C.unk("files/paths", "no file is made in the transient analysis")


def bare(p):
    while p.op == "app" and p.a[0] in ("path", "tostr", "disp", "to_str", "to_path_buf", "pathbuf") and len(p.a) == 2:
        p = p.a[1]
    return p


def constant(p):
    return all(x.op in ("C", "cat", "arr", "fld", "sym") or x.op == "app" and x.a[0] in ("path", "parent", "disp", "tostr", "join_path") for x in subterms(p))


def opened(C, prog, from_rd):
    """files are opened for reading while a deck is read only"""
    n = 0
    for f in prog.fns.values():
        for b in sorted(f.reach):
            t = f.blocks[b]["t"]
            if t[0] == "call" and isinstance(t[1], dict) and det_name(t[1]).startswith(READ):
                n += 1
                C.expect(True if f.id in from_rd else None, "reading/" + name(f.name), "reads a file outside the reading of a deck",
                         "%s (%s)" % (f.name, t[-1]), "while a deck is read")
