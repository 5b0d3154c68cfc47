"""Specifications that read input streams: a machine runs beside the analysed program.

The machine's state lives in st.mon: ('pos', B) how far it has read stream B, everything else registers.
It is fed every stream item the program has made known when a loop head is reached, so its registers widen
together with the program's own accumulators and receive the same generalised symbols.
"""
from .core import Panic, Undec, Undecided
from . import coll
from .coll import peek_el


class Machine:
    chars = False            # character streams instead of element streams

    def init(self, E, st, args):
        pass

    def need(self, E, st):
        """stream the machine wants to read next, or None"""
        raise NotImplementedError

    def feed(self, E, st, B, el):
        """el: element term (('el', B, pos) or a character symbol), or None at the end; returns states"""
        raise NotImplementedError

    def expect(self, E, st):
        """the expected outcome at the end"""
        raise NotImplementedError

    # ------------------------------------------------------------ running
    def item(self, B, pos):
        return ('el', B, pos)

    def peek(self, E, st, B, pos):
        return peek_el(E, st, B, pos)

    def step(self, E, st, B, pos, more):
        st = st.copy()
        if more:
            st.mon[('pos', B)] = pos + 1
            return self.feed(E, st, B, self.item(B, pos))
        return self.feed(E, st, B, None)

    def held(self, E, st, B):
        """position of the first item of B the program has read ahead and not yet dealt with"""
        return 1 << 60

    def advance(self, E, st):
        work = [st]
        B0 = self.need(E, st)
        hold = self.held(E, st, B0) if B0 is not None else 0
        out = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 2000:
                raise Undecided('specification machine does not settle')
            B = self.need(E, s)
            if B is None:
                out.append(s)
                continue
            pos = s.mon.get(('pos', B), 0)
            known, ended, sh = s.streams.get(B, (0, 0, 0))
            if B == B0 and pos >= hold:
                if ('pos', B) not in s.mon:
                    s = s.copy()
                    s.mon[('pos', B)] = pos
                out.append(s)
            elif pos < known:
                work += self.step(E, s, B, pos, True)
            elif ended:
                work += self.step(E, s, B, pos, False)
            else:
                out.append(s)
        return out

    def finish(self, E, st, extra=3):
        """run to the end of the machine's input; [(st, number of items the program had not looked at) or (None, n)]"""
        work = [(st, 0)]
        out = []
        n = 0
        while work:
            s, k = work.pop()
            n += 1
            if n > 4000:
                raise Undecided('specification machine does not settle')
            B = self.need(E, s)
            if B is None:
                out.append((s, k))
                continue
            pos = s.mon.get(('pos', B), 0)
            for s2, more in self.peek(E, s.copy(), B, pos):
                fresh = pos >= s.streams.get(B, (0, 0, 0))[0] and not s.streams.get(B, (0, 0, 0))[1]
                k2 = k + (1 if fresh and more else 0)
                if k2 > extra:
                    out.append((None, k2))
                    continue
                work += [(x, k2) for x in self.step(E, s2, B, pos, more)]
        return out
