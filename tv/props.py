"""Which workloads decide which property, and which disagreements with the specification count against it.

A disagreement has an aspect (what was compared) and a context (what happened last: parse, inplace, reshape,
refused, parse2, reparse, shown, kit).  A property has a pattern for 'context:aspect'."""
from .work import *

RD = r'(parse|parse2|reparse|shown)'      # after reading
ST = r'(inplace|reshape)'                 # after an accepted set

# each workload: quick list, and generator of more for thorough
P = {}


# alone: disagreements that are there as well when the same parser is used without the other ('alone'), or a new one instead ('fresh'), don't count
def prop(pid, pattern, quick, thorough=None, kit=False, alone=None):
    P[pid] = dict(pattern=pattern, quick=quick, thorough=thorough or quick, kit=kit, alone=alone)


prop('P01', RD + r':(lossless|disp)$',
     [lambda cx: mc_docs(cx, [('raw', 3, 4), ('ends', 3), ('gaps', 1, 1)][:2] + [('array', 3), ('inline', 3)], ops=(('disp',),)),
      lambda cx: rnd(cx, 'general', 1200, .25, ops=('disp',)), lambda cx: rnd(cx, 'fmt', 700, .1, ops=('disp',)), lambda cx: rnd(cx, 'nested', 500, ops=('disp',))],
     [lambda cx: mc_docs(cx, [('raw', 4, 20), ('gaps', 1, 3), ('array', 4, 4), ('inline', 4, 4), ('value', 3, 3)], ops=(('disp',),)),
      lambda cx: rnd(cx, 'general', 2500, .3, ops=('disp',)), lambda cx: rnd(cx, 'big', 400, .1, ops=('disp',)), lambda cx: rnd(cx, 'fmt', 2000, .2, ops=('disp',)), lambda cx: rnd(cx, 'nested', 2000, .1, ops=('disp',))])

prop('P02', r':res\.(kind|left)$',
     [lambda cx: mc_docs(cx, [('raw', 3, 3), ('ends', 3), ('value', 3, 8), ('key', 3), ('header', 3)], ops=()),
      lambda cx: rnd(cx, 'errors', 900, .3, ops=()), lambda cx: rnd(cx, 'general', 900, .6, ops=())],
     [lambda cx: mc_docs(cx, [('raw', 4, 20), ('ends', 4, 2), ('value', 4, 30), ('key', 4, 3), ('header', 4, 3)], ops=()),
      lambda cx: rnd(cx, 'errors', 3000, .4, ops=()), lambda cx: rnd(cx, 'general', 3000, .7, ops=())])

prop('P03', RD + r':(walk\.get|get|res\.(kind|left))',
     [lambda cx: mc_docs(cx, [('number', 4), ('value', 2), ('datechars', 1)], ops=(('walk',),)),
      lambda cx: rnd(cx, 'scalars', 1200, .15, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('number', 5, 3), ('number2', 6, 9), ('value', 3), ('datechars', 1)], ops=(('walk',),)),
      lambda cx: rnd(cx, 'scalars', 4000, .25, ops=('walk',))])

prop('P04', r':(walk\.get|get)',
     [lambda cx: lookups(cx, 'general', 500, .1), lambda cx: lookups(cx, 'tables', 500), lambda cx: lookups(cx, 'nested', 500), lambda cx: lookups(cx, 'keys', 500),
      lambda cx: histories(cx, 'clean', 300, checks=('walk',))],
     [lambda cx: lookups(cx, p, 1500, .1, k=25) for p in ()] + [lambda cx: lookups(cx, 'general', 1500, .1, k=25), lambda cx: lookups(cx, 'tables', 1500, k=25),
      lambda cx: lookups(cx, 'nested', 1500, k=25), lambda cx: lookups(cx, 'keys', 1500, k=25), lambda cx: histories(cx, 'clean', 1500, checks=('walk',))])

prop('P05', r':(walk\.ch|ch|kids)',
     [lambda cx: mc_docs(cx, [('tables', 3, 3), ('inlinelines', 3, 2)], ops=(('walk',),)),
      lambda cx: lookups(cx, 'general', 400, .1, kinds=('ch',)), lambda cx: lookups(cx, 'tables', 500, kinds=('ch',)), lambda cx: lookups(cx, 'nested', 400, kinds=('ch',)),
      lambda cx: lookups(cx, 'keys', 300, kinds=('ch',)), lambda cx: histories(cx, 'nested', 300, checks=('walk',))],
     [lambda cx: mc_docs(cx, [('tables', 4, 4), ('inlinelines', 4, 3), ('deep', 4)], ops=(('walk',),)),
      lambda cx: lookups(cx, 'general', 1500, .1, kinds=('ch',)), lambda cx: lookups(cx, 'tables', 2500, kinds=('ch',)), lambda cx: lookups(cx, 'nested', 1500, kinds=('ch',)),
      lambda cx: lookups(cx, 'keys', 1500, kinds=('ch',)), lambda cx: histories(cx, 'nested', 1500, checks=('walk',))])

prop('P06', RD + r':(walk\.|errs\.table|errs\.dup|res\.kind)',
     [lambda cx: mc_docs(cx, [('tables', 3), ('deep', 4, 3), ('inlinelines', 3)], ops=(('walk',),)), lambda cx: rnd(cx, 'tables', 1500, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('tables', 4, 2), ('deep', 5, 4), ('inlinelines', 4)], ops=(('walk',),)), lambda cx: rnd(cx, 'tables', 8000, ops=('walk',))])

prop('P07', r'.*:(errs\.(dup|table|other)|res\.kind|walk\.)',
     [lambda cx: mc_docs(cx, [('tables', 3, 2), ('inlinelines', 3), ('errors', 3), ('keys', 3, 2)], ops=(('walk',),)), lambda cx: rnd(cx, 'dups', 1500, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('tables', 4, 5), ('inlinelines', 4), ('errors', 4), ('keys', 4, 6)], ops=(('walk',),)), lambda cx: rnd(cx, 'dups', 8000, .05, ops=('walk',))])

prop('P08', RD + r':(errs\.(mixed|dt|other)|res\.kind|walk\.get)',
     [lambda cx: mc_docs(cx, [('mixed', 3), ('errors', 3)], ops=(('walk',),)), lambda cx: rnd(cx, 'arrays', 900, ops=('walk',)), lambda cx: rnd(cx, 'errors', 900, ops=('walk',)),
      lambda cx: rnd(cx, 'dates', 500, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('mixed', 4), ('errors', 4)], ops=(('walk',),)), lambda cx: rnd(cx, 'arrays', 3000, ops=('walk',)), lambda cx: rnd(cx, 'errors', 3000, ops=('walk',)),
      lambda cx: rnd(cx, 'dates', 2000, ops=('walk',))])

prop('P09', r':(res\.line|errs\.(line|order))$',
     [lambda cx: mc_docs(cx, [('ends', 3), ('errors', 3), ('gaps', 1)], ops=()), lambda cx: rnd(cx, 'lines', 1800, .1, ops=())],
     [lambda cx: mc_docs(cx, [('ends', 4), ('errors', 4), ('gaps', 1)], ops=()), lambda cx: rnd(cx, 'lines', 8000, .2, ops=())])

prop('P10', ST + r':(set$|.*\.own)',
     [lambda cx: mc_api(cx, 1), lambda cx: histories(cx, 'general', 500, checks=('walk',)), lambda cx: histories(cx, 'nested', 700, checks=('walk',)), lambda cx: histories(cx, 'tables', 300, checks=('walk',))],
     [lambda cx: mc_api(cx, 2, 61), lambda cx: histories(cx, 'general', 1500, length=(2, 8)), lambda cx: histories(cx, 'nested', 1500, length=(2, 8)), lambda cx: histories(cx, 'tables', 1500)])

prop('P11', ST + r':disp$',
     [lambda cx: mc_api(cx, 1), lambda cx: histories(cx, 'fmt', 600, checks=('disp',)), lambda cx: histories(cx, 'nested', 900, checks=('disp',)), lambda cx: histories(cx, 'errors', 300, checks=('disp',))],
     [lambda cx: mc_api(cx, 2, 61), lambda cx: histories(cx, 'fmt', 2000, checks=('disp',), length=(2, 8)), lambda cx: histories(cx, 'nested', 2000, checks=('disp',), length=(2, 8)), lambda cx: histories(cx, 'errors', 1500, checks=('disp',))])

prop('P12', ST + r':.*\.(apart|above)$',
     [lambda cx: mc_api(cx, 1), lambda cx: histories(cx, 'general', 500, checks=('walk',)), lambda cx: histories(cx, 'nested', 700, checks=('walk',)), lambda cx: histories(cx, 'tables', 400, checks=('walk',))],
     [lambda cx: mc_api(cx, 2, 61), lambda cx: histories(cx, 'general', 1500, length=(2, 8)), lambda cx: histories(cx, 'nested', 1500, length=(2, 8)), lambda cx: histories(cx, 'tables', 1500)])

BADOPS = dict(gopt=dict(bad=.45), p_near=.35)
prop('P13', r'^refused:',
     [lambda cx: mc_api(cx, 1), lambda cx: histories(cx, 'general', 900, .1, **BADOPS), lambda cx: histories(cx, 'nested', 500, **BADOPS), lambda cx: histories(cx, 'tables', 500, **BADOPS)],
     [lambda cx: mc_api(cx, 2, 61), lambda cx: histories(cx, 'general', 3000, .1, length=(2, 6), **BADOPS), lambda cx: histories(cx, 'nested', 1500, **BADOPS), lambda cx: histories(cx, 'tables', 1500, **BADOPS)])

RP = dict(p_reparse=1, checks=('disp',))
prop('P14', r'^reparse:',
     [lambda cx: histories(cx, 'general', 800, .1, **RP), lambda cx: histories(cx, 'nested', 600, **RP), lambda cx: histories(cx, 'tables', 500, **RP), lambda cx: histories(cx, 'keys', 300, **RP)],
     [lambda cx: mc_api(cx, 2, 61), lambda cx: histories(cx, 'general', 2500, .1, length=(1, 8), **RP), lambda cx: histories(cx, 'nested', 2000, length=(1, 8), **RP), lambda cx: histories(cx, 'tables', 2000, **RP)])

prop('P15', r':(ctor|show)$',
     [lambda cx: mc_values(cx, [('strings', 3), ('numbers', 4), ('bools', 1), ('parses', 1), ('datetimes', 1), ('plain', 1)]), lambda cx: ctors(cx, 500)],
     [lambda cx: mc_values(cx, [('strings', 4), ('numbers', 5), ('bools', 1), ('parses', 1), ('dates', 1), ('datetimes', 1), ('plain', 1)]), lambda cx: ctors(cx, 5000)])

prop('P16', r':(errs\.dt|ctor|set|res\.kind)$',
     [lambda cx: mc_docs(cx, [('dates', 1), ('clocks', 1), ('offsets', 1)], ops=()), lambda cx: mc_values(cx, [('dates', 1), ('datetimes', 1)]), lambda cx: histories(cx, 'dates', 300, checks=(), gopt=dict(bad=.3))],
     [lambda cx: mc_docs(cx, [('dates', 2), ('clocks', 1), ('offsets', 1), ('datechars', 1)], ops=()), lambda cx: mc_values(cx, [('dates', 1), ('datetimes', 1), ('parses', 1)]),
      lambda cx: histories(cx, 'dates', 2000, checks=('disp',), gopt=dict(bad=.3)), lambda cx: rnd(cx, 'dates', 3000, .1)])

prop('P17', r'^shown:|:show$',
     [lambda cx: mc_values(cx, [('plain', 1)]), lambda cx: shows(cx, 500)],
     [lambda cx: mc_values(cx, [('plain', 2)]), lambda cx: shows(cx, 4000)])

prop('P18', r'^(parse2|new):',
     [lambda cx: twice(cx, 'general', 500, .1), lambda cx: twice(cx, 'tables', 350), lambda cx: twice(cx, 'errors', 400), lambda cx: twice(cx, 'lines', 250, .1), lambda cx: isolated(cx, 'nested', 100)],
     [lambda cx: twice(cx, 'general', 2500, .1), lambda cx: twice(cx, 'tables', 1500), lambda cx: twice(cx, 'errors', 2000), lambda cx: twice(cx, 'lines', 1000, .1), lambda cx: isolated(cx, 'general', 800)], alone='fresh')

prop('P19', r':panic$',
     [lambda cx: mc_docs(cx, [('raw', 3, 3), ('value', 3, 6), ('escapes', 1)]), lambda cx: rnd(cx, 'general', 700, 1), lambda cx: histories(cx, 'general', 500, .3, gopt=dict(bad=.3)), lambda cx: histories(cx, 'nested', 400, gopt=dict(bad=.2)),
      lambda cx: lookups(cx, 'tables', 300), lambda cx: ctors(cx, 200)],
     [lambda cx: mc_docs(cx, [('raw', 4, 20), ('value', 4, 30), ('escapes', 1)]), lambda cx: rnd(cx, 'general', 3000, 1), lambda cx: histories(cx, 'general', 2500, .3, gopt=dict(bad=.3)), lambda cx: histories(cx, 'nested', 2000, gopt=dict(bad=.2)),
      lambda cx: lookups(cx, 'tables', 1500, k=25), lambda cx: ctors(cx, 2000)])

prop('P20', r':(kids|ctor|walk\.)',
     [lambda cx: lookups(cx, 'general', 500, .1, kinds=('kids',)), lambda cx: lookups(cx, 'tables', 600, kinds=('kids',)), lambda cx: lookups(cx, 'nested', 500, kinds=('kids',)), lambda cx: lookups(cx, 'keys', 400, kinds=('kids',)),
      lambda cx: mc_values(cx, [('keys', 1)])],
     [lambda cx: lookups(cx, 'general', 2000, .1, kinds=('kids',)), lambda cx: lookups(cx, 'tables', 2000, kinds=('kids',)), lambda cx: lookups(cx, 'nested', 2000, kinds=('kids',)), lambda cx: lookups(cx, 'keys', 2000, kinds=('kids',)),
      lambda cx: mc_values(cx, [('keys', 1)])])

prop('P21', r'^kit:(panic|kit\.(out|code|touched))$', [lambda cx: mc_kit(cx, 7), lambda cx: kits(cx, 1500, .15)], [lambda cx: mc_kit(cx), lambda cx: kits(cx, 8000, .2)], kit=True)
prop('P22', r'^kit:', [lambda cx: mc_kit(cx, 7), lambda cx: kits(cx, 1500, .9)], [lambda cx: mc_kit(cx), lambda cx: kits(cx, 8000, .9)], kit=True)

prop('P23', RD + r':(walk\.|res\.kind|res\.left|errs\.)',
     [lambda cx: mc_docs(cx, [('gaps', 1), ('ends', 3)], ops=(('walk',),)), lambda cx: reformatted(cx, 500)],
     [lambda cx: mc_docs(cx, [('gaps', 1), ('ends', 4)], ops=(('walk',),)), lambda cx: reformatted(cx, 3000)])

prop('P24', r':(walk\.get|get|res\.(kind|left))',
     [lambda cx: mc_docs(cx, [('bs', 4, 2), ('ls', 3), ('mbs', 4, 2), ('mls', 3), ('bs2', 3), ('mbs2', 3), ('quotes', 5, 2), ('escapes', 1)], ops=(('walk',),)), lambda cx: rnd(cx, 'strings', 1000, .15, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('bs', 5, 2), ('ls', 4), ('mbs', 5, 2), ('mls', 5, 2), ('bs2', 4), ('mbs2', 4), ('quotes', 6, 2), ('escapes', 1)], ops=(('walk',),)), lambda cx: rnd(cx, 'strings', 5000, .25, ops=('walk',))])

prop('P25', r':(walk\.|get|ch|res\.(kind|left))',
     [lambda cx: mc_docs(cx, [('array', 4, 5), ('inline', 4, 5), ('gaps', 1, 3)], ops=(('walk',),)), lambda cx: rnd(cx, 'arrays', 700, .05, ops=('walk',)), lambda cx: rnd(cx, 'inline', 700, .05, ops=('walk',)), lambda cx: rnd(cx, 'nested', 400, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('array', 5, 20), ('inline', 5, 20), ('gaps', 1)], ops=(('walk',),)), lambda cx: rnd(cx, 'arrays', 3000, .1, ops=('walk',)), lambda cx: rnd(cx, 'inline', 3000, .1, ops=('walk',)), lambda cx: rnd(cx, 'nested', 2000, .1, ops=('walk',))])

prop('P26', RD + r':(walk\.|res\.(kind|left)|errs\.(dup|table))',
     [lambda cx: mc_docs(cx, [('key', 3), ('header', 4, 4), ('keys', 3)], ops=(('walk',),)), lambda cx: rnd(cx, 'keys', 1500, .05, ops=('walk',))],
     [lambda cx: mc_docs(cx, [('key', 5, 6), ('header', 5, 6), ('keys', 4, 3)], ops=(('walk',),)), lambda cx: rnd(cx, 'keys', 6000, .1, ops=('walk',))])


prop('P27', r':part$',
     [lambda cx: mc_values(cx, [('parts', 1)]), lambda cx: parts(cx, 600)],
     [lambda cx: mc_values(cx, [('parts', 1)]), lambda cx: parts(cx, 8000)])

prop('P28', r':(eq|same)$',
     [lambda cx: mc_values(cx, [('equals', 1)]), lambda cx: equals(cx, 700), lambda cx: samekeys(cx, 'nested', 400), lambda cx: samekeys(cx, 'tables', 300), lambda cx: equals(cx, 60, long=.25)],
     [lambda cx: mc_values(cx, [('equals', 1)]), lambda cx: equals(cx, 6000), lambda cx: samekeys(cx, 'nested', 2000), lambda cx: samekeys(cx, 'tables', 2000), lambda cx: samekeys(cx, 'deepok', 300), lambda cx: equals(cx, 500, long=.25)])

prop('P29', r'.*:.*',
     [lambda cx: isolated(cx, 'general', 400, .1), lambda cx: isolated(cx, 'nested', 400), lambda cx: isolated(cx, 'tables', 300), lambda cx: isolated(cx, 'errors', 300, .1)],
     [lambda cx: isolated(cx, 'general', 2000, .1), lambda cx: isolated(cx, 'nested', 2000), lambda cx: isolated(cx, 'tables', 1500), lambda cx: isolated(cx, 'errors', 1500, .1), lambda cx: isolated(cx, 'keys', 1000),
      lambda cx: isolated(cx, 'scaleset', 200), lambda cx: isolated(cx, 'deepok', 300)], alone='alone')


# Documents out of the ordinary, for nearly all: nested deep ('deep', 'deepok' when well-formed), many of something ('scale',
# 'scaleset' when small enough to set things in), long tokens ('longs'); keys that are nearly each other come with all generators.
def also(pid, quick, thorough):
    P[pid]['quick'] = P[pid]['quick'] + quick
    P[pid]['thorough'] = P[pid]['thorough'] + thorough


def R(profile, n, mut=0.0, ops=('walk',)): return lambda cx: rnd(cx, profile, n, mut, ops)
def L(profile, n, kinds=('get', 'ch'), k=6): return lambda cx: lookups(cx, profile, n, k=k, kinds=kinds)
def H(profile, n, **kw): return lambda cx: histories(cx, profile, n, **kw)
def T(profile, n): return lambda cx: twice(cx, profile, n)


D = ('disp',)
W = dict(checks=('walk',))
also('P01', [R('deep', 200, ops=D), R('scale', 120, .2, D), R('longs', 100, .1, D)], [R('deep', 1500, .1, D), R('scale', 600, .2, D), R('longs', 1000, .1, D)])
also('P02', [R('deep', 300, .1, ()), R('scale', 120, .5, ()), R('longs', 150, .5, ())], [R('deep', 1500, .2, ()), R('scale', 600, .6, ()), R('longs', 1000, .5, ())])
also('P03', [R('longs', 300, .1)], [R('longs', 1500, .1)])
also('P04', [L('deep', 150), L('scaleset', 120), R('longs', 120)], [L('deep', 800), L('scale', 500), R('longs', 800)])
also('P05', [L('deepok', 150, ('ch',)), L('scale', 150, ('ch',))], [L('deep', 800, ('ch',)), L('scale', 700, ('ch',))])
also('P06', [R('scale', 250), R('deep', 150)], [R('scale', 1000), R('deep', 700)])
also('P07', [R('scale', 250)], [R('scale', 1000)])
also('P08', [R('scale', 100), R('deep', 150)], [R('scale', 600), R('deep', 700)])
also('P09', [R('scale', 250, .1, ()), R('deep', 100, ops=())], [R('scale', 1000, .1, ()), R('deep', 700, ops=())])
for x in ('P10', 'P12'): also(x, [H('keys', 200, **W), H('scaleset', 100, **W), H('deepok', 100, **W)], [H('keys', 1000, **W), H('scaleset', 500, **W), H('deepok', 500, **W)])
also('P11', [H('keys', 200, checks=D), H('scaleset', 120, checks=D), H('deepok', 120, checks=D)], [H('keys', 1000, checks=D), H('scaleset', 500, checks=D), H('deepok', 500, checks=D)])
also('P13', [H('keys', 150, **BADOPS), H('scaleset', 60, **BADOPS), H('deepok', 60, **BADOPS)], [H('keys', 800, **BADOPS), H('scaleset', 400, **BADOPS), H('deepok', 400, **BADOPS)])
also('P14', [H('scaleset', 100, **RP), H('deepok', 100, **RP)], [H('scaleset', 500, **RP), H('deepok', 500, **RP)])
also('P15', [lambda cx: ctors(cx, 60, long=.4)], [lambda cx: ctors(cx, 500, long=.4)])
also('P16', [lambda cx: years(cx, 1, ('doc', 'str'))], [lambda cx: years(cx, 1)])
also('P17', [lambda cx: shows(cx, 60, long=.25), lambda cx: shows(cx, 60, maxitems=2, depth=7)], [lambda cx: shows(cx, 400, long=.25), lambda cx: shows(cx, 400, depth=7)])
also('P18', [T('scaleset', 60), T('deep', 60)], [T('scaleset', 400), T('deep', 400)])
also('P19', [R('deep', 400, .1), R('scale', 100, .5), H('deepok', 60), R('longs', 100, .5)], [R('deep', 1500, .2), R('scale', 500, .5), H('deepok', 500), R('longs', 500, .5)])
also('P20', [L('scaleset', 150, ('kids',)), L('deepok', 100, ('kids',))], [L('scaleset', 600, ('kids',)), L('deepok', 600, ('kids',))])
also('P21', [lambda cx: kits(cx, 250, .15, 'scaleset'), lambda cx: kits(cx, 200, .15, 'deepok')], [lambda cx: kits(cx, 1000, .15, 'scaleset'), lambda cx: kits(cx, 1000, .15, 'deepok')])
also('P22', [lambda cx: kits(cx, 200, .9, 'scaleset'), lambda cx: kits(cx, 150, .9, 'deepok')], [lambda cx: kits(cx, 1000, .9, 'scaleset'), lambda cx: kits(cx, 1000, .9, 'deepok')])
also('P23', [lambda cx: reformatted(cx, 60, long=.2, depth=4)], [lambda cx: reformatted(cx, 400, long=.2, depth=4)])
also('P24', [R('longs', 200, .1)], [R('longs', 1500, .1)])
also('P25', [R('deep', 300), R('deepok', 200), R('scale', 100)], [R('deep', 1500, .1), R('deepok', 1000), R('scale', 500)])
also('P26', [R('scale', 120), R('longs', 120)], [R('scale', 600), R('longs', 600)])

# ... and small ones with one thing that's far longer, or occurs far more often, than usual
for x, n in (('P03', 80), ('P06', 80), ('P07', 90), ('P08', 60), ('P23', 120), ('P24', 80), ('P25', 120), ('P26', 120)): also(x, [R('huge', n)], [R('huge', 6 * n)])
also('P01', [R('huge', 120, ops=D)], [R('huge', 800, ops=D)])
for x in ('P02', 'P09'): also(x, [R('huge', 120, .1, ())], [R('huge', 800, .1, ())])
also('P19', [R('huge', 80, .2), H('huge', 40)], [R('huge', 500, .2), H('huge', 250)])
also('P04', [L('huge', 80)], [L('huge', 500)])
also('P05', [L('huge', 80, ('ch',))], [L('huge', 500, ('ch',))])
also('P20', [L('huge', 80, ('kids',))], [L('huge', 500, ('kids',))])
for x in ('P10', 'P12'): also(x, [H('huge', 50, **W)], [H('huge', 400, **W)])
also('P11', [H('huge', 60, checks=D)], [H('huge', 400, checks=D)])
also('P13', [H('huge', 40, **BADOPS)], [H('huge', 300, **BADOPS)])
also('P14', [H('huge', 60, **RP)], [H('huge', 400, **RP)])
also('P18', [T('huge', 30), lambda cx: mc_turns(cx, 3)], [T('huge', 200), lambda cx: mc_turns(cx, 4, 2)])
also('P28', [lambda cx: samekeys(cx, 'huge', 40), lambda cx: samevalues(cx, 300)], [lambda cx: samekeys(cx, 'huge', 300), lambda cx: samevalues(cx, 3000)])
also('P29', [lambda cx: reused(cx, 500), lambda cx: isolated(cx, 'huge', 25), lambda cx: mc_turns(cx, 3)], [lambda cx: reused(cx, 4000), lambda cx: isolated(cx, 'huge', 200), lambda cx: mc_turns(cx, 4, 2)])
for x in ('P21', 'P22'): also(x, [lambda cx: kits(cx, 60, .4, 'huge')], [lambda cx: kits(cx, 400, .4, 'huge')])
# ... and trees of tables
for x in ('P06', 'P07'): also(x, [R('tree', 700)], [R('tree', 5000)])
also('P04', [L('tree', 200)], [L('tree', 2000)])
also('P05', [R('tree', 300)], [R('tree', 3000)])
also('P20', [L('tree', 200, ('kids',))], [L('tree', 1500, ('kids',))])
for x in ('P10', 'P12'): also(x, [H('tree', 150, **W)], [H('tree', 1500, **W)])
also('P21', [lambda cx: kits(cx, 40, .2, 'tree')], [lambda cx: kits(cx, 300, .2, 'tree')])


# ... and with one of more than 16 bits count
def V(*kinds, ops=('walk',)): return [lambda cx: vast(cx, kinds, ops)]


for x, v in (('P01', V('comment', 'blank', 'multi', 'key', 'raw', ops=D)), ('P02', V('basic', 'quoted', 'comment', ops=())), ('P03', V('digits', 'fraction', 'second')), ('P09', V('lines', ops=())),
             ('P19', V('lines', 'blank', 'literal', 'quoted', 'digits')), ('P24', V('basic', 'literal', 'multi', 'raw')), ('P25', V('items', 'pairs')), ('P26', V('key', 'quoted'))): also(x, v, v)
# Tables beside tables
also('P07', [R('tables', 900)], [R('tables', 5000, .05)])

# All edits by one character of documents with something of everything
def E(q, t, ops=('walk', 'disp')): return [lambda cx: mc_docs(cx, [('edits', 1, q)], ops=[(o,) for o in ops])], [lambda cx: mc_docs(cx, [('edits', 1, t)], ops=[(o,) for o in ops])]


for x in ('P01', 'P02', 'P09', 'P19'): also(x, *E(5, 2, D if x == 'P01' else () if x != 'P19' else ('walk', 'disp')))
for x in ('P03', 'P23', 'P24', 'P25', 'P26'): also(x, *E(6, 2, ('walk',)))


# Every character somewhere
def C(n, *places, ops=('walk',)): return [lambda cx: chars(cx, places or PLACES, n, ops)], [lambda cx: chars(cx, places or PLACES, 8 * n, ops)]


also('P26', *C(1800, 'key', 'key', 'quoted'))
also('P24', *C(1500, 'basic', 'literal'))
also('P23', *C(1500, 'comment', 'blank'))
also('P03', *C(1000, 'number'))
for x in ('P02', 'P19'): also(x, *C(900, ops=() if x == 'P02' else ('walk', 'disp')))
also('P01', *C(600, ops=D))
also('P09', *C(500, 'blank', 'comment', ops=()))

# Anything set to anything
for x, kw in (('P10', dict(checks=('walk',), back=0)), ('P11', dict(checks=('disp',), back=0)), ('P12', dict(checks=('walk',), back=0)), ('P14', dict(checks=('disp',), back=1))):
    also(x, [lambda cx, kw=kw: puts(cx, 400, **kw)], [lambda cx, kw=kw: puts(cx, 3000, 4, **kw)])
also('P19', [lambda cx: puts(cx, 200, bad=.3)], [lambda cx: puts(cx, 2000, 3, bad=.3)])

# Nested deeper still
def A(n, **kw): return lambda cx: abyss(cx, n, **kw)
for x in ('P01', 'P02', 'P04', 'P05', 'P06', 'P08', 'P19', 'P25'): also(x, [A(30)], [A(300)])
also('P20', [A(30, kinds=('kids',))], [A(300, kinds=('kids',))])
for x in ('P10', 'P11', 'P12', 'P13'): also(x, [A(25, sets=2)], [A(250, sets=3)])

# Long histories
LONG = dict(length=(30, 60))
for x, kw in (('P10', W), ('P12', W), ('P11', dict(checks=D)), ('P13', BADOPS), ('P14', RP)):
    kw = dict(kw, **LONG)
    also(x, [H('nested', 20, **kw), H('general', 20, **kw)], [H('nested', 200, **kw), H('general', 200, **kw), H('tables', 200, **kw)])
also('P18', [H('errors', 40, p_parse=.5, p_reparse=.3, **LONG)], [H('errors', 300, p_parse=.5, p_reparse=.3, **LONG), H('general', 300, p_parse=.5, p_reparse=.3, **LONG)])
also('P29', [lambda cx: isolated(cx, 'nested', 30, length=(40, 70))], [lambda cx: isolated(cx, 'nested', 300, length=(40, 70)), lambda cx: isolated(cx, 'errors', 300, .1, length=(40, 70))])
also('P19', [H('general', 30, gopt=dict(bad=.3), p_parse=.2, **LONG)], [H('general', 300, gopt=dict(bad=.3), p_parse=.2, **LONG)])

# Values with a lot of something
for x, kw in (('P10', dict(checks=('walk',), back=0)), ('P11', dict(checks=('disp',), back=0)), ('P12', dict(checks=('walk',), back=0)), ('P14', dict(checks=('disp',), back=1)), ('P19', {})):
    also(x, [lambda cx, kw=kw: sizes(cx, 40, **kw)], [lambda cx, kw=kw: sizes(cx, 400, **kw)])


def showsizes(cx, n): return [dict(doc='', ops=[dict(op='show', val=v), dict(op='showparse', val=v), dict(op='walk'), dict(op='disp')]) for v in (sizable(Gen(cx.rng))[0] for _ in range(n))]
also('P17', [lambda cx: showsizes(cx, 60)], [lambda cx: showsizes(cx, 500)])
for x in ('P21', 'P22'): also(x, [lambda cx: kits(cx, 25, .5, 'vast')], [lambda cx: kits(cx, 60, .5, 'vast')])

# Things with many parts
def MANY(n, **kw): return lambda cx: many(cx, n, **kw)
also('P20', [MANY(16, kinds=('kids',), p=.3)], [MANY(300, kinds=('kids',), p=.5)])
for x in ('P04', 'P05', 'P06'): also(x, [MANY(12)], [MANY(200)])
for x in ('P10', 'P12'): also(x, [MANY(20, sets=1, top=250, p=.05, kinds=('get', 'get', 'ch'))], [MANY(300, sets=2, p=.3)])

# Exactly so many errors
for x in ('P02', 'P07', 'P08', 'P09'): also(x, [lambda cx: wrongs(cx, 20)], [lambda cx: wrongs(cx, 200)])
