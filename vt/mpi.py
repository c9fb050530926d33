"""A communicator for testing: every rank is a thread, one of them runs at a time, and at every communication a (seeded) scheduler
chooses which rank goes on.  Messages are pickled.  Sends are buffered, or end only when the message is taken (rendezvous)."""
import pickle
import threading
import numpy as np


class Deadlock(Exception):
    pass


class Comm:
    def __init__(self, world, rank):
        self.w, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        self.w.pause(self.rank)
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        m = [pickle.dumps(obj), tag]
        ch = self.w.chan[self.rank, dest]
        ch.append(m)
        self.w.events.append(dict(rank=self.rank, op='send', peer=dest, keys=keys(obj)))
        if self.w.rendezvous:
            self.w.pause(self.rank, lambda: not any(x is m for x in ch))
        else:
            self.w.pause(self.rank)

    def isend(self, obj, dest, tag=0):
        self.w.chan[self.rank, dest].append([pickle.dumps(obj), tag])
        self.w.events.append(dict(rank=self.rank, op='send', peer=dest, keys=keys(obj)))

        class Req:
            wait = Wait = lambda s: None
            test = Test = lambda s: True
        return Req()

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        src = lambda: [s for s in range(self.size) if source in (-1, -2, s, None) and   # noqa
                       any(tag in (-1, m[1]) for m in self.w.chan[s, self.rank])]
        self.w.pause(self.rank, lambda: src())
        s = src()
        s = s[self.w.rng.randint(len(s))]
        ch = self.w.chan[s, self.rank]
        i = [k for k, m in enumerate(ch) if tag in (-1, m[1])][0]
        m = ch.pop(i)
        obj = pickle.loads(m[0])
        self.w.events.append(dict(rank=self.rank, op='recv', peer=s, keys=keys(obj)))
        return obj

    def collective(self, name, contrib):
        """every rank contributes; returns the list of all contributions"""
        n = self.w.ncoll[self.rank]
        self.w.ncoll[self.rank] += 1
        slot = self.w.coll.setdefault(n, {})
        slot[self.rank] = (name, contrib)
        self.w.events.append(dict(rank=self.rank, op=name, peer=n, keys=[]))
        self.w.pause(self.rank, lambda: len(slot) == self.size)
        if len({v[0] for v in slot.values()}) > 1:
            raise RuntimeError('ranks are in different collective operations: %s' % sorted({v[0] for v in slot.values()}))
        return [slot[r][1] for r in range(self.size)]

    def Barrier(self):
        self.collective('Barrier', None)
    barrier = Barrier

    def _sum(self, name, arr):
        arr = np.asarray(arr)
        parts = self.collective(name + str(arr.shape) + arr.dtype.char, arr.copy())
        order = self.w.rng.permutation(len(parts)) if False else range(len(parts))
        out = np.zeros_like(arr)
        for k in order:
            out = out + parts[k]
        return out

    def Allreduce(self, send, recv, op=None):
        src = recv if send is None or np.isscalar(send) or not hasattr(send, 'shape') else send
        recv[...] = self._sum('Allreduce', src)

    def allreduce(self, obj, op=None):
        parts = self.collective('allreduce', pickle.dumps(obj))
        out = pickle.loads(parts[0])
        for p in parts[1:]:
            out = out + pickle.loads(p)
        return out

    def Reduce(self, send, recv, op=None, root=0):
        src = recv if send is None or not hasattr(send, 'shape') else send
        s = self._sum('Reduce', src)
        if self.rank == root:
            recv[...] = s

    def reduce(self, obj, op=None, root=0):
        out = self.allreduce(obj)
        return out if self.rank == root else None

    def allgather(self, obj):
        return [pickle.loads(p) for p in self.collective('allgather', pickle.dumps(obj))]

    def gather(self, obj, root=0):
        self_ = self.collective('gather', pickle.dumps(obj))
        return [pickle.loads(p) for p in self_] if self.rank == root else None

    def bcast(self, obj, root=0):
        parts = self.collective('bcast', pickle.dumps(obj) if self.rank == root else None)
        return pickle.loads(parts[root])

    def Bcast(self, buf, root=0):
        parts = self.collective('Bcast', np.array(buf) if self.rank == root else None)
        buf[...] = parts[root]


def keys(obj):
    r = getattr(obj, 'results', None)
    if not isinstance(r, dict):
        return []
    return [[int(x) for x in k] for k in r]


class World:
    def __init__(self, size, seed=0, rendezvous=False):
        self.size, self.rendezvous = size, rendezvous
        self.rng = np.random.RandomState(seed)
        self.bias = self.rng.randint(4)      # how the next rank is chosen
        self.chan = {(a, b): [] for a in range(size) for b in range(size)}
        self.coll, self.ncoll = {}, [0] * size
        self.events = []
        self.cv = threading.Condition()
        self.current = None
        self.block = {r: None for r in range(size)}      # rank -> what it is waiting for (None: nothing)
        self.alive = set(range(size))
        self.dead = False

    def _choose(self):
        ok = [r for r in sorted(self.alive) if self.block[r] is None or self.block[r]()]
        if not ok:
            if self.alive:
                self.dead = True
            self.current = None
        elif self.bias == 0:
            self.current = ok[0]
        elif self.bias == 1:
            self.current = ok[-1]
        else:
            self.current = ok[self.rng.randint(len(ok))]
        self.cv.notify_all()

    def _wait(self, r):
        while self.current != r and not self.dead:
            self.cv.wait()
        if self.dead:
            raise Deadlock('rank %d waits forever' % r)
        self.block[r] = None

    def pause(self, r, cond=None):
        with self.cv:
            self.block[r] = cond
            self._choose()
            self._wait(r)

    def run(self, fn):
        """fn(comm) on every rank -> [(result, error)]"""
        out = [None] * self.size

        def body(r):
            try:
                with self.cv:
                    self._wait(r)
                out[r] = (fn(Comm(self, r)), '')
            except Deadlock as e:
                out[r] = (None, 'deadlock: ' + str(e))
            except Exception as e:
                import os
                if os.environ.get('VT_TB'):
                    import traceback
                    traceback.print_exc()
                out[r] = (None, type(e).__name__ + ': ' + str(e)[:150])
            finally:
                with self.cv:
                    self.alive.discard(r)
                    self.events.append(dict(rank=r, op='end', peer=0, keys=[]))
                    if not self.dead:
                        self._choose()
        ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in ths:
            t.start()
        with self.cv:
            self._choose()
        for t in ths:
            t.join()
        return out

    def left(self):
        return sum(len(c) for c in self.chan.values())
