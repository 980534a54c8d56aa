"""Analyses of one source tree, built on demand and shared by the rules of a check."""
import os
import time
from functools import cached_property
from .program import Program


class Session:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.t0 = time.time()

    @cached_property
    def prog(self):
        return Program()

    @cached_property
    def ctors(self):
        return self.writer.ca

    @cached_property
    def writer(self):
        from .writer_sum import WriterAnalysis
        wa = WriterAnalysis(self.prog)
        wa.analyse_all()
        return wa

    @cached_property
    def reader(self):
        from .reader_sum import ReaderAnalysis
        ra = ReaderAnalysis(self.prog)
        ra.analyse_all()
        return ra

    @cached_property
    def methods(self):
        from .methods import MethodAnalysis
        return MethodAnalysis(self.prog, self.ctors)

    @cached_property
    def pairing(self):
        from .pairing import Pairing
        return Pairing(self.writer, self.reader)

    @cached_property
    def composer(self):
        from .compose import Composer
        co = Composer(self.writer, self.reader, self.ctors)
        seeds = []
        for (wu, ru), q in self.pairing.pairs.items():
            if isinstance(q.via, tuple) and isinstance(q.via[0], str):
                seeds.append((wu, ru, q.tag))
        self.seed_count = len(seeds)
        co.build(seeds)
        return co
