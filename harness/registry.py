"""What decides each property."""
BUDGET = {'quick': 240, 'thorough': 700}

ALG = ['P01', 'P02', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P17', 'P18', 'P24', 'P25', 'P32']
PARTS = {}
for p in ALG:
  PARTS[p] = [dict(kind='trace', module='alg', name='recorded executions against AlgTrace.tla')]

for p in ('P26', 'P27'):
  PARTS[p] = [dict(kind='trace', module='chain', name='histories of real nodes against BlockTrace.tla')]
PROTO = ['P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P20', 'P21', 'P22', 'P23']
for p in PROTO:
  PARTS[p] = [dict(kind='trace', module='proto', name='recorded executions against ProtoTrace.tla')]
MISC = ['P03', 'P19', 'P28', 'P29', 'P30', 'P31', 'P33']
for p in MISC:
  PARTS[p] = [dict(kind='trace', module='misc', name='recorded executions against GadgetTrace.tla')]
PARTS['P32'] += [dict(kind='trace', module='proto', name='rehearsed protocol executions against ProtoTrace.tla', share=.5),
                 dict(kind='trace', module='misc', name='rehearsed executions against GadgetTrace.tla', share=.5)]
ASSUMPTIONS = {}
TECHNIQUE = {}
NOTE = {}
for p in ALG:
  TECHNIQUE[p] = 'TLA+ specification (Alg.tla, AlgTrace.tla) model-checked with TLC; trace validation of executions of the real code against it'
  NOTE[p] = ('Every recorded call is judged by the TLA+ specification, which computes the result independently; small structures are '
             'enumerated exhaustively, larger ones sampled.')

for p in ('P26', 'P27'):
  TECHNIQUE[p] = ('TLA+ specification of nodes, threads and consensus (Blockchain.tla, Converge.tla) model-checked with TLC; schedules '
                  'generated by TLC are replayed into real threaded nodes, and the recorded histories are checked against BlockTrace.tla')
  NOTE[p] = ('Exhaustive for small numbers of nodes, threads and operations on the specification; sampled schedules on the real code, '
             'each history judged for linearizability by TLC.')

for p in PROTO:
  TECHNIQUE[p] = ('TLA+ specification of the protocols over a hash oracle (Protocol.tla, ProtoTrace.tla) model-checked with TLC; trace '
                  'validation of executions of the real code, on honest inputs, forged proofs and altered proofs')
  NOTE[p] = ('The specification recomputes every result and every accept/reject verdict; the hash function is an uninterpreted oracle whose '
             'answers are attached to the trace and checked for consistency. Inputs sampled; a known finding is listed in known_findings.json for P22.')

for p in MISC:
  TECHNIQUE[p] = ('TLA+ specification (Gadgets.tla, GadgetTrace.tla over Alg.tla) model-checked with TLC; trace validation of executions of '
                  'the real code against it')
  NOTE[p] = ('Every recorded call, protocol round or request history is judged by the specification; small instances are enumerated '
             'exhaustively, larger ones sampled.')
NOTE['P03'] += ' Histories of constructor requests start in a freshly imported library.'
NOTE['P19'] += ' Known finding P19-eq.'
NOTE['P28'] += ' Known finding P28-negation.'

# ---------------------------------------------------------------------------
# models of the specification itself: name -> (module, cfg per tier, expected)
MODELS = {}


def _law(mod, mode):
  return (mod, {t: 'CONSTANTS Mode = "%s"\n Size = %d\nINIT Init\nNEXT Next\nINVARIANT Law\nCHECK_DEADLOCK FALSE\n' % (mode, k)
                for t, k in (('quick', 0), ('thorough', 1))}, 'ok')


for _m in ('field', 'limbs', 'poly', 'gcd', 'interp', 'irred', 'dft', 'multi', 'unique', 'conv', 'affine', 'frac', 'embed', 'int'):
  MODELS[_m] = _law('AlgLaws', _m)


def _plaw(module, mode, expect='ok', tiers=('quick', 'thorough')):
  c = {t: 'CONSTANTS Mode = "%s"\n Size = %d\nINIT Init\nNEXT Next\nINVARIANT Law\nCHECK_DEADLOCK FALSE\n' % (mode, k)
       for t, k in (('quick', 0), ('thorough', 1))}
  return (module, {t: c[t] if t in tiers else None for t in c}, expect)


for _m in ('slots', 'merkle', 'positions', 'rows', 'fold', 'sound', 'stark', 'pack', 'cycle', 'mimc', 'pow2'):
  MODELS[_m] = _plaw('ProtoLaws', _m)


def _bytes(scheme, depth, expect):
  return ('MerkleBytes', {t: 'CONSTANTS Scheme = "%s"\n Depth = %s\n Big = %s\nINIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (
      scheme, depth, b, 'Complete Binding' if expect == 'ok' else expect) for t, b in (('quick', 'FALSE'), ('thorough', 'TRUE'))}, expect)


MODELS['openings'] = _bytes('prefixed', 'FALSE', 'ok')
MODELS['openings_bare'] = _bytes('bare', 'TRUE', 'Binding')
MODELS['openings_hashed'] = _bytes('hashed', 'FALSE', 'Binding')
MODELS['openings_hashed_depth'] = _bytes('hashed', 'TRUE', 'ok')


def _comp(fmt, variant, expect='ok'):
  return ('CompressMC', {t: 'CONSTANTS Format = "%s"\n Variant = "%s"\n Size = %d\nINIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (
      fmt, variant, k, 'Refs Once Back' if expect == 'ok' else expect) for t, k in (('quick', 0), ('thorough', 1))}, expect)


MODELS['compress'] = _comp('branches', 'ok')
MODELS['compress_fri'] = _comp('fri', 'ok')
MODELS['compress_two'] = _comp('branches', 'two', 'Back')
MODELS['compress_marker'] = _comp('branches', 'marker', 'Back')
MODELS['compress_wrap'] = _comp('branches', 'wrap', 'Back')
MODELS['compress_last'] = _comp('branches', 'last', 'Refs')
MODELS['foldfloor'] = _plaw('ProtoLaws', 'foldfloor', 'Law')
for _m in ('float', 'square', 'bits', 'mr', 'lucas', 'iso', 'zk', 'color', 'apr'):
  MODELS[_m] = _plaw('GadgetLaws', _m)
MODELS['squareall'] = _plaw('GadgetLaws', 'squareall', 'Law')


def _cache(key, keep, expect):
  return ('Cache', {t: 'CONSTANTS KeyBy = "%s"\n Keep = %s\n MaxReq = %d\nINIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (
      key, keep, n, 'SameOnce NeverShared' if expect == 'ok' else expect) for t, n in (('quick', 4), ('thorough', 5))}, expect)


MODELS['cache'] = _cache('bound', 'TRUE', 'ok')
MODELS['cache_written'] = _cache('written', 'TRUE', 'SameOnce')
MODELS['cache_positional'] = _cache('positional', 'TRUE', 'NeverShared')
MODELS['cache_bounded'] = _cache('bound', 'FALSE', 'SameOnce')


def _chain(inv, ops, expect='ok', nodes=2, threads=2, kinds='{"mine", "tx", "resolve"}', lock='TRUE', tip='TRUE', trust='FALSE', liars='{}', maxlen=4,
           props=''):
  def cfg(k):
    return ('CONSTANTS Nodes = {%s}\n Threads = {%s}\n MaxOps = %d\n MaxLen = %d\n UseLock = %s\n CheckTip = %s\n TrustLength = %s\n Liars = %s\n'
            ' Kinds = %s\n Emit = FALSE\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%s%s' % (
                ', '.join(map(str, range(1, nodes + 1))), ', '.join(map(str, range(1, threads + 1))), k, maxlen, lock, tip, trust, liars, kinds,
                'INVARIANTS %s\n' % inv if inv else '', 'PROPERTIES %s\n' % props if props else ''))
  return ('Blockchain', {'quick': cfg(ops[0]), 'thorough': cfg(ops[1])}, expect)


_ALL = 'ChainWellFormed TransactionsOnce OneReward NothingBad'
MODELS['chain'] = _chain(_ALL, (4, 6), props='NeverShorter OnlyGrowsOrLonger')
MODELS['chain_one_node'] = _chain(_ALL, (5, 6), nodes=1, threads=3, kinds='{"mine", "tx"}')
MODELS['chain_no_lock'] = _chain('ChainWellFormed', (3, 3), 'ChainWellFormed', nodes=1, lock='FALSE', kinds='{"mine", "tx"}')
MODELS['chain_no_lock_reward'] = _chain('OneReward', (3, 3), 'OneReward', nodes=1, lock='FALSE', kinds='{"mine", "tx"}')
MODELS['chain_stale_tip'] = _chain('ChainWellFormed', (3, 3), 'ChainWellFormed', nodes=1, tip='FALSE', kinds='{"mine"}')
MODELS['chain_liars'] = _chain('NothingBad ChainWellFormed', (4, 5), liars='{2}', kinds='{"mine", "resolve"}', props='NeverShorter OnlyGrowsOrLonger')
MODELS['chain_trusting'] = _chain('NothingBad', (4, 4), 'NothingBad', liars='{2}', trust='TRUE', kinds='{"mine", "resolve"}')
MODELS['converge'] = ('Converge', {t: 'CONSTANTS N = %d\n MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANT Converged\nCHECK_DEADLOCK FALSE\n' % k
                                   for t, k in (('quick', (4, 4)), ('thorough', (5, 6)))}, 'ok')

USES = dict(P01='field limbs', P02='field', P03='cache cache_written cache_positional cache_bounded', P04='poly', P05='multi', P06='gcd int',
            P07='irred', P08='interp', P09='unique', P10='dft', P11='slots merkle openings openings_bare openings_hashed openings_hashed_depth', P12='pack', P13='compress compress_fri compress_two compress_marker compress_wrap compress_last', P14='positions', P15='mimc cycle pow2', P16='stark', P17='affine', P18='frac',
            P19='float', P20='stark', P21='merkle stark', P22='rows fold foldfloor sound', P23='stark', P24='conv', P25='embed',
            P26='chain chain_one_node chain_no_lock chain_no_lock_reward chain_stale_tip', P27='chain chain_liars chain_trusting converge',
            P28='square squareall bits', P29='mr lucas int', P30='iso zk', P31='color', P33='apr')
for _p, _ms in USES.items():
  PARTS[_p].insert(0, dict(kind='design', name='model checking of the specification', models=[(m,) + MODELS[m] for m in _ms.split()]))
