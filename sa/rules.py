"""Base class of the rules: hooks called by the interpreter."""


class Rule:
    write_errors = True     # a write to an output may fail
    fork_values = False     # unwrap_or & co fork the path
    sequential = False      # locking doesn't forget what the lock protects

    def initial(self):
        return ()

    def inline(self, path):
        return True

    def sticky(self, t, v):
        return False

    def phi_tag(self, a):
        """Joined values are told apart by this (of finitely many) view of the automaton's state."""
        return None

    def on_call(self, I, st, ev):
        return None

    def on_return(self, I, st, fn, v, ev):
        return None

    def on_exit(self, I, st, fn, v):
        pass

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        pass

    def on_write(self, I, st, cell, path, v, site, fn):
        pass

    def on_mutate(self, I, st, cell, path, v, ev):
        pass

    def on_text(self, I, st, ev, w, tk):
        pass

    def on_exclude(self, I, st, t, vs):
        """t is known not to be one of the variants vs."""

    def on_fact(self, I, st, t, v):
        return None

    def on_bin(self, I, st, op, x, y, sp, fn):
        pass

    def on_assert(self, I, st, t, c, ops, fn):
        pass

    def on_panic(self, I, st, ev, why):
        pass

    def on_drop(self, I, st, v, ty, site, fn):
        pass

    def on_next(self, I, st, ev, it):
        pass

    def on_elem(self, I, st, ev, it, v):
        pass

    def on_end(self, I, st, ev, it):
        pass

    def on_skip(self, I, st, ev, it):
        pass

    def on_spawn(self, I, st, ev):
        return st.a

    def on_thread_exit(self, I, st, v, ev):
        pass

    def on_lock(self, I, st, ev, cell):
        pass

    def on_catch(self, I, st, ev, enter):
        pass

    def on_arrive(self, I, st, fid, point):
        """A state reaches a block with several predecessors."""
        pass

    def on_unwound(self, I, st, ev):
        return st.a
