# -*- coding: utf-8 -*-
""" Stand-in for the NLTK classes used by the probability estimation (NLTK is not installed here). """
import collections


class FreqDist(collections.Counter):

    def N(self):
        return sum(self.values())

    def B(self):
        return len(self)

    def freq(self, sample):
        n = self.N()
        return self[sample] / n if n else 0


class ConditionalFreqDist(collections.defaultdict):

    def __init__(self, cond_samples=None):
        super(ConditionalFreqDist, self).__init__(FreqDist)
        for cond, sample in cond_samples or ():
            self[cond][sample] += 1

    def conditions(self):
        return list(self.keys())

    def N(self):
        return sum(fd.N() for fd in self.values())


class LaplaceProbDist(object):

    def __init__(self, freqdist, bins=None):
        if bins == 0 or (bins is None and freqdist.N() == 0):
            raise ValueError('A Laplace probability distribution must have at least one bin.')
        if bins is not None and bins < freqdist.B():
            raise ValueError('The number of bins in a Laplace distribution (%d) must be greater than '
                             'or equal to the number of bins in the FreqDist (%d).' % (bins, freqdist.B()))
        self._freqdist = freqdist
        self._bins = freqdist.B() if bins is None else bins
        self._divisor = freqdist.N() + self._bins

    def freqdist(self):
        return self._freqdist

    def prob(self, sample):
        return (self._freqdist[sample] + 1) / self._divisor

    def max(self):
        return max(self._freqdist, key=self._freqdist.get)

    def samples(self):
        return self._freqdist.keys()


class ConditionalProbDist(dict):

    def __init__(self, cfdist, probdist_factory, *factory_args, **factory_kw_args):
        for condition in cfdist:
            self[condition] = probdist_factory(cfdist[condition], *factory_args, **factory_kw_args)

    def conditions(self):
        return list(self.keys())
