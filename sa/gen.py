"""generators of the analysed program: coroutines on threads of which only one runs at a time"""
import threading

STACK = 256 * 2 ** 20


class Chan:
    def __init__(self, body):
        self.body = body
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = self.out = self.inp = self.exc = self.err = None
        self.done = self.running = False

    def run(self):
        self.go.acquire()
        try:
            if self.exc is not None:
                raise self.exc
            self.out = self.body(self)
        except BaseException as e:  # noqa
            self.err = e
        self.done = True
        self.back.release()

    def put(self, v):
        """yield, in the thread of the body"""
        self.out = v
        self.back.release()
        self.go.acquire()
        e, self.exc = self.exc, None
        if e is not None:
            raise e if isinstance(e, GeneratorExit) else self.wrap(e)
        return self.inp

    def resume(self, v=None, exc=None):
        """-> (finished, value)"""
        if self.running:
            raise ValueError("generator already executing")
        if self.done:
            if exc is not None and not isinstance(exc, GeneratorExit):
                raise exc
            return True, None
        if self.thread is None:
            old = threading.stack_size(STACK)
            try:
                self.thread = threading.Thread(target=self.run, daemon=True)
                self.thread.start()
            finally:
                threading.stack_size(old)
        self.inp, self.exc = v, exc
        self.running = True
        self.go.release()
        try:
            while not self.back.acquire(timeout=1.0):
                pass
        finally:
            self.running = False
        if self.err is not None:
            e, self.err = self.err, None
            raise e
        return self.done, self.out


class Gen:
    def __init__(self, body):
        self._c = Chan(body)

    def __iter__(self):
        return self

    def __next__(self):
        return self.send(None)

    def send(self, v):
        if self._c.done:
            raise StopIteration
        end, r = self._c.resume(v)
        if end:
            raise StopIteration(r)
        return r

    def throw(self, typ, val=None, tb=None):
        e = val if isinstance(val, BaseException) else typ() if isinstance(typ, type) else typ
        try:
            end, r = self._c.resume(None, e)
        except Exception as again:
            if getattr(again, "exc", None) is e:
                raise e
            raise
        if end:
            raise StopIteration(r)
        return r

    def close(self):
        if self._c.thread is None:
            self._c.done = True
        if not self._c.done:
            try:
                self._c.resume(None, GeneratorExit())
            except GeneratorExit:
                pass

    def __del__(self):
        try:
            self.close()
        except BaseException:  # noqa
            pass
