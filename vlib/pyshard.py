"""Python counterpart of harness/common.h: work distribution, reports"""

import array
import fcntl
import hashlib
import struct
import sys
import time


class Shard:

    def __init__(self, argv):
        self.outdir, self.shard, self.tier = argv[1], int(argv[2]), argv[3]
        self.thorough = self.tier == 'thorough'
        self.seed, self.deadline = int(argv[4]), float(argv[5])
        self.only = int(argv[6]) if len(argv) > 6 else -1
        self.t0 = time.time()
        self.item = -1
        self.counter = open(self.outdir + '/counter', 'a+b')
        self.out = open('%s/out.%d' % (self.outdir, self.shard), 'w')
        self.ftrace = open('%s/trace.%d' % (self.outdir, self.shard), 'w')
        self.where = ''
        self.nviol = self.nsamples = self.items = self.capped = 0
        self.transitions = self.validated = 0
        self.states = set()

    def trace(self, text):
        self.where = 'item=%d %s' % (self.item, text)

    def keep_trace(self):
        """Before something that may crash"""
        self.ftrace.seek(0)
        self.ftrace.truncate()
        self.ftrace.write(self.where)
        self.ftrace.flush()

    def next(self, n):
        if self.only >= 0:
            if self.item >= 0:
                return False
            self.item = self.only
            return self.only < n
        if self.nviol >= 3:
            return False
        fcntl.flock(self.counter, fcntl.LOCK_EX)
        self.counter.seek(0)
        v = self.counter.read(8)
        v = struct.unpack('q', v)[0] if len(v) == 8 else 0
        capped = time.time() - self.t0 > self.deadline
        if not capped:
            self.counter.truncate(0)
            self.counter.write(struct.pack('q', v + 1))
            self.counter.flush()
        fcntl.flock(self.counter, fcntl.LOCK_UN)
        if capped:
            self.capped |= v < n
            return False
        self.item = v
        self.items += v < n
        return v < n

    def report(self, text):
        self.nviol += 1
        if self.nviol <= 5:
            text = ' '.join(text.split())[:1500]
            self.out.write('VIOL item=%d %s | %s\n' % (self.item, text,
                                                       self.where))
            self.out.flush()

    def sample(self, text):
        self.nsamples += 1
        if self.nsamples <= 3:
            self.out.write('SAMPLE %s\n' % text)

    def stat(self, k, v):
        self.out.write('STAT %s %d\n' % (k, v))

    def state(self, data):
        self.states.add(struct.unpack(
            'Q', hashlib.blake2b(data, digest_size=8).digest())[0])

    def end(self):
        with open('%s/states.%d' % (self.outdir, self.shard), 'wb') as f:
            array.array('Q', self.states).tofile(f)
        self.stat('items', self.items)
        self.stat('transitions', self.transitions)
        self.stat('validated', self.validated)
        self.stat('capped', self.capped)
        self.out.write('END\n')
        self.out.close()
        sys.exit(3 if self.nviol else 0)
