"""Runs programs in a second process that has the compiled accelerators"""
import os, pickle, select, struct, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Other:
    def __init__(self, module):
        self.module, self.p = module, None

    def start(self):
        env = dict(os.environ)
        env['VERIF_CONFIG'] = 'accel1'
        env['PYTHONPATH'] = os.pathsep.join([os.environ['VERIF_ACCEL_DIR'], os.environ['VERIF_REPO']])
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), self.module], env=env, cwd=HERE,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def read(self, n, timeout):
        out = b''
        fd = self.p.stdout.fileno()
        while len(out) < n:
            if not select.select([fd], [], [], timeout)[0]:
                self.stop()
                raise TimeoutError
            b = os.read(fd, n - len(out))
            if not b:
                self.stop()
                raise EOFError
            out += b
        return out

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, program, timeout=240):
        """The other process's result; TimeoutError, EOFError if it hangs or dies"""
        if self.p is None:
            self.start()
        b = pickle.dumps(program)
        try:
            self.p.stdin.write(struct.pack('>I', len(b)) + b)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise EOFError
        n = struct.unpack('>I', self.read(4, timeout))[0]
        return pickle.loads(self.read(n, timeout))


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.remove(os.path.join(HERE, 'harness')) if os.path.join(HERE, 'harness') in sys.path else None
    sys.path.append(os.environ['VERIF_HYP'])
    import importlib
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    mod = importlib.import_module(sys.argv[1])
    from harness import core
    core.check_config()
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        program = pickle.loads(inp.read(struct.unpack('>I', h)[0]))
        b = pickle.dumps(mod.execute(program))
        out.write(struct.pack('>I', len(b)) + b)
        out.flush()


if __name__ == '__main__':
    main()
