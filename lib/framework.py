"""Registry of properties and the run loop of one check."""
import os, sys, json, time, importlib, traceback
from front import VERIF, AnalysisBroken, load_raw
from ir import Program

PROPS = {}
NA = {}
GROUPS = ['a_auth', 'a_chan', 'a_reg', 'b_deliver', 'c_hide', 'd_net', 'e_robust', 'f_life', 'g_burst', 'g_limits', 'h_tables']


class Prop:
    pass


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, level='other', state=None, observe=None):
    def deco(fn):
        p = Prop()
        p.id = pid; p.title = title; p.statement = statement; p.over = over; p.qtext = qtext; p.why = why
        p.files = files; p.mech = mech; p.technique = technique; p.note = note; p.level = level; p.fn = fn
        p.state = state; p.observe = observe
        if pid in PROPS:
            raise SystemExit('duplicate ' + pid)
        PROPS[pid] = p
        return fn
    return deco


def not_applicable(pid, title, statement, over, qtext, why, files, mech, reason):
    p = Prop()
    p.id = pid; p.title = title; p.statement = statement; p.over = over; p.qtext = qtext; p.why = why
    p.files = files; p.mech = mech; p.reason = reason; p.state = None; p.observe = None
    NA[pid] = p


def load_all():
    for g in GROUPS:
        if os.path.exists(os.path.join(VERIF, 'lib', 'checks', g + '.py')):
            importlib.import_module('checks.' + g)


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                # KNOWN-FINDING: property=X [rule | identity] text
                rest = l[len('KNOWN-FINDING: property=%s ' % pid):]
                if rest.startswith('['):
                    key, txt = rest[1:].split(']', 1)
                    r, i = key.split('|', 1)
                    out[(r.strip(), i.strip())] = txt.strip()
    return out


def second_look(pr, pid, prog, tier, first):
    """decide again with more states kept apart: every look covers all behaviours, so what any of them proves holds"""
    import rules, pickle, signal, tempfile
    fd, path = tempfile.mkstemp(prefix='look')
    os.close(fd)
    sys.stdout.flush()
    pid_ = os.fork()
    if pid_ == 0:
        code = 1
        try:
            signal.alarm(LOOK)
            os.setpgid(0, 0)
            rules.Guard.DEEPER = 5
            rep = rules.Report(pid)
            pr.fn(prog, rep, tier)
            with open(path, 'wb') as f: pickle.dump(rep, f)
            code = 0
        except BaseException: pass
        finally: os._exit(code)
    t0 = time.time()
    while True:
        p, stt = os.waitpid(pid_, os.WNOHANG)
        if p: break
        if time.time() - t0 > LOOK:
            try: os.killpg(pid_, signal.SIGKILL)
            except OSError: pass
            os.waitpid(pid_, 0)
            break
        time.sleep(0.1)
    rep = first
    try:
        with open(path, 'rb') as f: r = pickle.load(f)
        left = {k: v for k, v in first.viol.items() if k in r.viol}
        if not left:
            r.viol = {}
            r.notes.append('%d points needed a second look with more states kept apart' % len(first.viol))
            rep = r
        else: first.viol = left
    except Exception: pass
    os.unlink(path)
    return rep


LOOK = 240


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load_all()
    if pid not in PROPS:
        print('unknown property', pid)
        return 2
    pr = PROPS[pid]
    from rules import Report
    rep = Report(pid)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        prog = Program(load_raw())
        pr.fn(prog, rep, tier)
        if set(rep.viol) - set(known(pid)):
            rep = second_look(pr, pid, prog, tier, rep)
        # a violation stands even if other instances went missing
        if not rep.viol:
            rep.check_min()
    except AnalysisBroken as e:
        if not rep.viol:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, str(e)[:1500]))
            return 2
    kf = known(pid)
    new, old = [], []
    for k, v in sorted(rep.viol.items()):
        (old if k in kf else new).append((k, v))
    tot = sum(o[0] for o in rep.obl.values()); ok = sum(o[1] for o in rep.obl.values())
    rules = {}
    for (r, w), o in sorted(rep.obl.items()):
        rules.setdefault(r, []).append(w)
    cov = {
        'explanation': pr.technique + '. Program points of the current tree at which each rule was decided, over every abstract path reaching them, are listed under "rules".',
        'units_compiled': len(prog.mods) if hasattr(prog, 'mods') else None,
        'functions_in_program': len(prog.funcs),
        'functions_analysed': sorted(rep.functions)[:200],
        'obligations_on_paths': tot, 'obligations_discharged': ok,
        'program_points': len(rep.obl),
        'rules': {r: {'points': len(ws), 'where': ws[:12]} for r, ws in rules.items()},
        'abstract_exit_states': rep.states, 'abstract_steps': rep.steps,
        'notes': rep.notes[:20],
    }
    cov = {k: v for k, v in cov.items() if v is not None}
    if rep.samples: cov['samples'] = rep.samples[:8]
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': pr.level, 'coverage': cov,
           'assumptions': [pr.note], 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if new:
        doc['coverage']['violation_list'] = [dict(v) for _, v in new[:20]]
    if pr.level == 'proof':
        cov['obligations'] = tot; cov['discharged'] = ok
    with open(ev, 'w') as f:
        json.dump(doc, f, indent=1)
    for k, v in old:
        print('KNOWN-FINDING: property=%s [%s | %s] %s' % (pid, k[0], k[1], kf[k]))
    if new:
        for k, v in new[:10]:
            print('  %s at %s: %s' % (v['rule'], v['where'], v['message'][:600]))
            for l in v['path'][-10:]:
                print('      ' + l)
        rp = os.path.join('evidence', pid + '.json')
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s program_points=%d path_obligations=%d steps=%d wall=%.1fs' % (pid, len(rep.obl), tot, rep.steps, time.time() - t0))
    return 0
