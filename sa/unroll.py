"""An engine for code applied to known shapes: loops are followed turn by turn
and recursion level by level while the values that control them are known."""
from noja import *


class UnrollOpts(Opts):
    inline_depth = 60
    inline_size = 4000
    cap = 400
    retcap = 400
    recur = 12
    turns = 12
    free = False


class Unroll(Engine):
    def __init__(self, prog, eff, hooks=None, opts=None):
        super().__init__(prog, eff, hooks, opts or UnrollOpts())
        self.cuts = set()

    def prepare(self, fr, b, batch):
        blk = fr.fn.blocks[b]
        out = []
        for env, st, pred in batch:
            e2 = dict(env)
            for i in blk.ins:
                if i.op != 'phi':
                    break
                for v, pb in i.x:
                    if pb == pred:
                        e2[i.res] = self.val(fr, env, st, v)
                        break
            if b in fr.cfg.loops:
                if (pred, b) in fr.cfg.back:
                    n = st.its.get((fr.act, b), 0) + 1
                    m = n
                    if self.o.free:
                        # turns that took no decision on a value that is not known are not counted
                        k, was = st.its.get((fr.act, b + '#'), (0, None))
                        now = (len(st.iv), len(st.ne), len(st.tr), len(st.sub))
                        m = k + (now != was)
                        st.its[(fr.act, b + '#')] = (m, now)
                    if m > self.o.turns or n > max(64, self.o.turns):
                        self.cuts.add((fr.fn.gid, b))
                        continue
                    st.its[(fr.act, b)] = n
                else:
                    st.its[(fr.act, b)] = 0
                    if self.o.free:
                        st.its[(fr.act, b + '#')] = (0, (len(st.iv), len(st.ne), len(st.tr), len(st.sub)))
            out.append((e2, st))
        live = fr.cfg.live_in[b] | {i.res for i in blk.ins if i.op == 'phi'}
        uniq = {}
        for env, st in out:
            env = {k: v for k, v in env.items() if k in live}
            if len(out) > 1:
                key = (frozenset(env.items()), st.key(), tuple(sorted((k[1], v) for k, v in st.its.items() if k[0] == fr.act)))
            else:
                key = 0
            uniq.setdefault(key, (env, st))
        res = list(uniq.values())
        self.stats['states'] += len(res)
        self.stats['blocks'].add((fr.fn.gid, b))
        if len(res) > self.o.cap:
            raise Budget('%s: too many states' % fr.fn.name)
        return res

    def loop_exit(self, fr, b, succ, env, st):
        pass
