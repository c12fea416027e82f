"""Abstract machine over emitted instruction sequences: what every instruction needs and what it leaves behind."""
import emit as EM
from shape import *

# kinds a register can hold
OBJ, RAW, CELL, CLOS, UNDEF, MULTI = 'a value', 'the raw argument count', 'a variable cell', 'a fresh closure', 'nothing defined', 'one or several values'
VALUE = (OBJ, CLOS)
ANYVAL = (OBJ, CLOS, MULTI)

class Frame:
    __slots__ = ('label', 'proc', 'args', 'room', 'known')
    def __init__(s, label, proc, args, room, known): s.label = label; s.proc = proc; s.args = args; s.room = room; s.known = known
    def key(s): return (s.label, s.proc, s.args, s.room, s.known)
    def copy(s): return Frame(*s.key())

class St:
    def __init__(s, regs, frames, base): s.regs = list(regs); s.frames = frames; s.base = base
    def copy(s): return St(s.regs, [f.copy() for f in s.frames], s.base)
    def key(s): return (tuple(s.regs), tuple(f.key() for f in s.frames))

class SeqRun:
    """base frame kinds: 'value' untouchable, 'tail' a cleared frame, 'body' the frame of the call"""
    def __init__(s, seq):
        s.q = seq; s.bad = {}; s.ins = 0; s.pushes = 0; s.sym = {}
    def fail(s, rule, key, msg): s.bad.setdefault((rule, key), msg)
    def n(s, op, what, k):
        """constant operand"""
        if op[0] != 'fix': return None
        v = op[1]
        return v if isinstance(v, int) else None
    def reg(s, st, op, write=False):
        v = op[1] if op[0] == 'fix' else None
        if not isinstance(v, int) or not 0 <= v <= 4: s.fail('C10', 'register', 'a register operand is not one of the five registers'); return None
        return v
    def run(s):
        q = s.q; el = q.elems
        for k, x in enumerate(el):
            if x.kind == 'bad': s.fail('C10', 'shape', 'the sequence is not a list of instructions and labels: %s' % x.id); return s
        pos = {}
        for k, x in enumerate(el):
            if x.kind == 'label':
                if x.id in pos: s.fail('C11', 'twice', 'a label is placed twice')
                pos[x.id] = k
        for x in el:
            if x.kind == 'ins':
                for o in x.ops:
                    if o[0] == 'label' and o[1] not in pos: s.fail('C11', 'unplaced in %s' % x.sym, '%s refers to a label that is not placed in the same sequence' % x.sym)
        if el and q.kind in ('body', 'tail'):
            if el[-1].kind == 'label': s.fail('C11', 'end', 'the code ends with a label, no instruction follows it')
            if el[0].kind == 'label': s.fail('C11', 'start', 'the code starts with a label')
        if not el: s.fail('C22', 'empty', 'the sequence is empty'); return s
        base = {'value': Frame(None, 'keep', 'keep', None, None), 'tail': Frame(None, 'clear', 0, 0, None), 'body': Frame(None, 'entry', 'entry', 0, None)}[q.kind]
        st = St([UNDEF] * 3 + [OBJ, RAW], [base], q.kind)
        seen = {}; work = [(0, st)]; steps = 0
        while work:
            k, st = work.pop(); steps += 1
            if steps > 4000: break
            if k >= len(el):
                if q.kind != 'value': s.fail('C22', 'falls off', 'execution runs past the end of code in tail position')
                else:
                    if len(st.frames) != 1: s.fail('C22', 'open frame', 'a saved continuation is still open when the value is needed')
                    if st.regs[0] not in ANYVAL: s.fail('C10', 'result', 'the result register holds %s at the end of an expression' % st.regs[0])
                continue
            kk = st.key()
            if kk in seen.setdefault(k, set()): continue
            seen[k].add(kk)
            x = el[k]
            if x.kind == 'label':
                # everything that meets here must agree on the frames
                fr = tuple((f.label, f.proc, f.args) for f in st.frames)
                old = s.sym.setdefault(x.id, fr)
                if len(old) != len(fr) or [a[0] for a in old] != [a[0] for a in fr]: s.fail('C22', 'join', 'paths that meet at a label have saved different continuations')
                elif [(a[1], a[2]) for a in old] != [(a[1], a[2]) for a in fr]: s.fail('C22', 'join frame', 'paths that meet at a label have built up different frames')
                work.append((k + 1, st)); continue
            if x.kind == 'sub':
                if x.tail:
                    if q.kind == 'value' or len(st.frames) > 1: s.fail('C22', 'tail sub', 'code of a sub-expression is generated for tail position where its value has to come back'); continue
                    if st.frames[0].proc not in ('clear', 'entry') : s.fail('C22', 'tail frame', 'a sub-expression in tail position starts with a procedure already set in the frame')
                    if st.frames[0].args not in (0, 'entry'): s.fail('C22', 'tail frame', 'a sub-expression in tail position starts with arguments left in the frame')
                    if q.kind == 'body' and st.frames[0].args == 'entry' and q.who not in ('compile_expr body',): s.fail('C22', 'tail frame', 'the body of a procedure starts with the arguments of the call still in the frame')
                    continue
                st = st.copy(); st.regs[0] = MULTI; st.regs[1] = st.regs[2] = UNDEF; work.append((k + 1, st)); continue
            for nk, ns in s.step(x, k, st.copy(), pos): work.append((nk, ns))
        return s
    def resume(s, st, pos, k):
        """control returns to the saved continuation, or leaves the code"""
        f = st.frames[-1]
        if len(st.frames) == 1:
            if s.q.kind == 'value': s.fail('C22', 'leaves', 'an expression whose value is needed leaves the procedure')
            return []
        st.frames.pop(); st.regs[0] = MULTI; st.regs[1] = st.regs[2] = UNDEF
        if f.label not in pos: return []
        return [(pos[f.label], st)]
    def frame(s, st, what):
        f = st.frames[-1]
        if f.proc == 'keep': s.fail('C22', 'foreign frame %s' % what, '%s changes the frame of the surrounding call: no continuation was saved' % what); return None
        return f
    def need(s, st, r, kinds, sym):
        k = st.regs[r]
        if k not in kinds: s.fail('C10', '%s needs' % sym, '%s finds %s in register %d' % (sym, k, r)); return False
        return True
    def step(s, x, k, st, pos):
        s.ins += 1; sym = x.sym.replace('_symbol', ''); o = x.ops; R = st.regs; f = st.frames[-1]; nx = [(k + 1, st)]
        def tgt(i):
            if o[i][0] != 'label': s.fail('C11', '%s target' % sym, '%s has a target that is not a label' % sym); return []
            return [(pos[o[i][1]], st.copy())] if o[i][1] in pos else []
        n = len(o)
        want = ARITY.get(sym)
        if want is None: s.fail('C10', 'unknown %s' % sym, '%s is not an instruction' % sym); return nx
        if n != want: s.fail('C10', '%s operands' % sym, '%s is emitted with %d operands instead of %d' % (sym, n, want)); return nx
        if sym == 'literal': R[0] = OBJ
        elif sym in ('lookup', 'tl_lookup'): R[0] = OBJ
        elif sym in ('lookup_cell', 'tl_lookup_cell'): R[0] = CELL
        elif sym == 'set_proc':
            s.need(st, 0, ANYVAL, sym)
            g = s.frame(st, sym)
            if g: g.proc = 'set'
        elif sym == 'push':
            s.need(st, 0, ANYVAL, sym); R[0] = OBJ; s.pushes += 1
            g = s.frame(st, sym)
            if g:
                if g.args == 'entry': s.fail('C22', 'push entry', 'an argument is pushed on top of the arguments of the call')
                elif isinstance(g.args, int): g.args += 1
                if g.room == '?': s.fail('C14', 'room', 'an argument is pushed although the room made by check-stack is not known to be enough')
                elif g.room is not None:
                    g.room -= 1
                    if g.room < 0: s.fail('C14', 'room', 'more arguments are pushed than check-stack made room for')
        elif sym == 'pop':
            g = s.frame(st, sym); R[0] = OBJ
            if g and isinstance(g.args, int):
                g.args -= 1
                if g.args < 0: s.fail('C22', 'pop', 'pops an argument that was never pushed')
        elif sym == 'mov':
            d = s.reg(st, o[0]); a = s.reg(st, o[1])
            if d is not None and a is not None:
                if R[a] == UNDEF: s.fail('C10', 'mov', 'a register is read that holds nothing')
                R[d] = R[a]
        elif sym == 'closure_ref':
            a = s.reg(st, o[0]); R[0] = CELL
            if a is not None: s.need(st, a, (CLOS, OBJ), sym)
        elif sym == 'closure_set':
            a = s.reg(st, o[0]); c = s.reg(st, o[2])
            if a is not None: s.need(st, a, (CLOS,), sym)
            if c is not None: s.need(st, c, (CELL,), sym)
        elif sym == 'closure_bind':
            if f.proc != 'entry': s.fail('C22', 'closure-bind', 'the closure is unpacked after the current procedure was cleared')
        elif sym == 'apply':
            if f.proc not in ('set',): s.fail('C22', 'apply', 'apply runs without a procedure set in the frame')
            if f.args == 'entry' or f.args == 'keep': s.fail('C22', 'apply args', 'apply runs on a frame whose arguments were not set up')
            return s.resume(st, pos, k)
        elif sym == 'ret':
            s.need(st, 0, ANYVAL, sym); return s.resume(st, pos, k)
        elif sym == 'ccall': R[0] = OBJ; s.entry(f, sym)
        elif sym in ('bind', 'rebind', 'tl_rebind'):
            s.need(st, 0, ANYVAL, sym); R[0] = OBJ
        elif sym == 'bind_cell': s.need(st, 0, (CELL,), sym); R[0] = OBJ
        elif sym in ('bind_values', 'tl_bind_values'): s.need(st, 0, ANYVAL, sym); R[0] = OBJ
        elif sym == 'push_env': pass
        elif sym == 'save_cc':
            r = tgt(0)
            if o[0][0] == 'label': st.frames.append(Frame(o[0][1], 'clear', 0, 0, None))
        elif sym == 'get_arg':
            d = s.reg(st, o[0]); i = s.n(o[1], sym, 1)
            s.entry(f, sym)
            if f.args == 'entry' and i is not None and (f.known is None or not isinstance(f.known[1], int) or i >= f.known[1]):
                s.fail('C14', 'get-arg', 'an argument is read that the arity check has not established')
            if d is not None: R[d] = OBJ
        elif sym == 'set_arg':
            i = s.n(o[0], sym, 0); a = s.reg(st, o[1]); s.entry(f, sym)
            if a is not None: s.need(st, a, VALUE, sym)
            if f.args == 'entry' and i is not None and (f.known is None or not isinstance(f.known[1], int) or i >= f.known[1]): s.fail('C14', 'set-arg', 'an argument slot is written that the arity check has not established')
        elif sym == 'get_tenv':
            d = s.reg(st, o[0])
            if d is not None: R[d] = OBJ
        elif sym == 'set_tenv':
            a = s.reg(st, o[0])
            if a is not None: s.need(st, a, (OBJ,), sym)
        elif sym == 'do_apply':
            s.entry(f, sym)
            if not (f.known and isinstance(f.known[1], int) and f.known[1] >= 2): s.fail('C14', 'do-apply', 'apply shifts the frame without at least two arguments')
            return s.resume(st, pos, k)
        elif sym == 'do_raise':
            s.entry(f, sym)
            if not (f.known and isinstance(f.known[1], int) and f.known[1] >= 1): s.fail('C14', 'do-raise', 'raise reads an argument that is not there')
            return s.resume(st, pos, k)
        elif sym == 'do_arity_error':
            if f.proc != 'entry': s.fail('C22', 'arity error', 'an arity error is reported after the current procedure was cleared')
            return []
        elif sym == 'do_eval': s.need(st, 0, (OBJ,), sym); R[0] = OBJ
        elif sym == 'do_rest':
            i = s.n(o[0], sym, 0); s.entry(f, sym); R[0] = OBJ
            if f.known is None or not isinstance(f.known[1], int) or i is None or i > f.known[1]: s.fail('C14', 'do-rest', 'the rest list starts beyond the arguments the arity check has established')
        elif sym == 'do_values':
            if f.args == 'keep': s.fail('C22', 'values', 'the arguments of the surrounding call are returned as values')
            R[0] = MULTI
        elif sym == 'do_with_values':
            s.need(st, 0, ANYVAL, sym); g = s.frame(st, sym)
            if g:
                if g.args != 0: s.fail('C22', 'with-values', 'values are appended to arguments already in the frame')
                g.args = 'any'
            R[0] = UNDEF
        elif sym == 'clear_frame':
            g = s.frame(st, sym)
            if g: g.proc = 'clear'; g.args = 0; g.room = 0; g.known = None
        elif sym == 'brancha': return tgt(0)
        elif sym == 'branchf':
            s.need(st, 0, ANYVAL, sym); return nx + tgt(0)
        elif sym in ('branchgt', 'branchlt', 'branchne'):
            s.need(st, 0, (RAW,), sym); t = tgt(1)
            v = o[0][1] if o[0][0] == 'fix' else ('operand',)
            if o[0][0] == 'fix' and isinstance(o[0][1], int) and f.args == 'entry':
                if sym == 'branchne': f.known = ('eq', o[0][1])
                elif sym == 'branchlt': f.known = ('ge', o[0][1])
                for _, ts in t: ts.frames[-1].known = None
            elif o[0][0] not in ('fix', 'any', 'tags'): s.fail('C10', '%s operand' % sym, '%s compares with something that is not a number' % sym)
            return nx + t
        elif sym == 'make_closure': R[0] = CLOS
        elif sym == 'check_stack':
            v = o[0][1] if o[0][0] == 'fix' else None
            f.room = v if isinstance(v, int) else '?'
        else: s.fail('C10', 'unknown %s' % sym, '%s is not an instruction' % sym)
        return nx
    def entry(s, f, sym):
        if f.args != 'entry': s.fail('C22', '%s frame' % sym, '%s reads the arguments of the call after the frame was cleared' % sym)
ARITY = dict(literal=1, lookup=1, lookup_cell=1, tl_lookup=1, tl_lookup_cell=1, set_proc=0, push=0, pop=0, mov=2, closure_ref=2, closure_set=3, closure_bind=0, apply=0, ret=0, ccall=1, bind=2, bind_cell=1, bind_values=3,
             tl_bind_values=2, rebind=1, tl_rebind=1, push_env=1, save_cc=1, get_arg=2, set_arg=2, get_tenv=1, set_tenv=1, do_apply=0, do_arity_error=0, do_eval=0, do_raise=0, do_rest=1, do_values=0, do_with_values=0,
             clear_frame=0, brancha=1, branchf=1, branchgt=2, branchlt=2, branchne=2, make_closure=2, check_stack=1)
