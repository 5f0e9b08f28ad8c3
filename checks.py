"""What decides each property: design specifications, scenarios, trace specifications."""


def _hist(c, covers, more=(), **kw):
    return dict(mc=[('HistoryMC', 'HistoryMC.cfg')], mc_thorough=[('HistoryMC', 'HistoryMC_deep.cfg')],
                scenarios=[dict(name='history' if c == 'C03' else 'sliding',
                                traces=[('HistoryTrace', f'HistoryTrace_{c}.cfg')])] + list(more),
                covers=covers, **kw)


CHECKS = {
    'C01': dict(
        mc=[('RangeCoderMC', 'RangeCoderMC.cfg')],
        scenarios=[dict(name='coder', gen=('CoderGen', 'CoderGen.cfg', 150, 61),
                        traces=[('CoderTrace', 'CoderTrace_C01.cfg')])],
        covers='decision sequences through the real encoder and decoder, generated by the specification and by '
               'steering towards long runs of pending digits; exhaustive design check with 2-bit digits'),
    'C02': dict(
        mc=[('RangeCoderMC', 'RangeCoderMC.cfg')],
        scenarios=[dict(name='coder', gen=('CoderGen', 'CoderGen.cfg', 150, 61),
                        traces=[('CoderTrace', 'CoderTrace_C02.cfg')])],
        covers='the bytes written by the real encoder compared digit by digit with exact interval arithmetic'),
    'C03': _hist('C03', 'every report of the naive, hash-map and tree sources at every bit of texts that fit the '
                        'window, against the incremental specification and against the definition over the text; chosen reports in texts of more '
                        'than 65536 bytes and in contexts of up to 300 bytes',
                 more=[dict(name='far', traces=[('FarTrace', 'FarTrace_C03.cfg')])]),
    'C04': _hist('C04', 'every report of the tree source at every bit of texts longer than the window, against the '
                        'definition over the window content; chosen reports in windows of thousands to more than 65536 bytes '
                        'and in contexts of up to 300 bytes',
                 more=[dict(name='far-sliding', traces=[('FarTrace', 'FarTrace_C04.cfg')])]),
    'C05': _hist('C05', 'live node counts at every bit and the full shape of the real tree at every byte boundary, '
                        'against the set of branching strings of the window; large trees at chosen moments',
                 more=[dict(name='trees', traces=[('TreesTrace', 'TreesTrace.cfg')])]),
    'C06': _hist('C06', 'the statistics of every reported context at every bit of texts longer than the window'),
    'C07': dict(
        mc=[('WindowMC', 'WindowMC.cfg')], mc_thorough=[('WindowMC', 'WindowMC_deep.cfg')],
        scenarios=[dict(name='window', traces=[('WindowTrace', 'WindowTrace.cfg')])],
        covers='sequences of window operations with every query answered at every step, from every start position '
               'of small rings; rings of up to 160,000 bytes moved in blocks'),
    'C08': dict(
        mc=[('HistoryMC', 'HistoryMC.cfg')],
        scenarios=[dict(name='bits', traces=[('BitsTrace', 'BitsTrace.cfg')])],
        covers='all bit histories of up to 15 bits, all starting runs, and random histories of thousands of bits'),
    'C09': dict(
        mc=[('EstMC', 'EstMC.cfg')], mc_thorough=[('EstMC', 'EstMC_deep.cfg')],
        scenarios=[dict(name='estimators', traces=[('EstTrace', 'EstTrace.cfg')])],
        covers='updates of both kinds of estimators from extreme and random starts, all rates, all run caches'),
    'C10': dict(
        mc=[('CostMC', 'CostMC.cfg')], mc_thorough=[('CostMC', 'CostMC_deep.cfg')],
        scenarios=[dict(name='cost', traces=[('CostTrace', 'CostTrace.cfg')])],
        covers='costs charged by the real tables and trackers for probabilities over the whole range, against exact '
               'logarithm bounds and the tracker state machine; the logarithm itself within 4 units of 2^-31'),
    'C11': dict(
        mc=[('MixerMC', 'MixerMC.cfg')], mc_thorough=[('MixerMC', 'MixerMC_deep.cfg')],
        scenarios=[dict(name='mixer', traces=[('MixerTrace', 'MixerTrace.cfg')])],
        covers='cycles of setting, mixing and learning of every kind of mixer from every initialization, with '
               'extreme inputs, long learning and forbidden calls'),
    'C12': dict(
        mc=[('ApmMC', 'ApmMC.cfg')], mc_thorough=[('ApmMC', 'ApmMC_deep.cfg')],
        scenarios=[dict(name='apm', traces=[('ApmTrace', 'ApmTrace.cfg')])],
        covers='refining and updating maps of every precision at stops, between them and at the ends, up to '
               'saturation, with every stop of every used context probed at the end; '
               'maps of up to 131,072 contexts of which a few, close or differing in one bit, are used'),
    'C13': dict(
        mc=[('CodecMC', 'CodecMC.cfg')],
        scenarios=[dict(name='codec', traces=[('CodecTrace', 'CodecTrace.cfg')])],
        covers='whole texts (random, repetitive, adversarial, empty) predicted, compressed and decompressed by the '
               'real code, twice in one process and again in another process, in another order, with families of texts sharing '
               'prefixes; the specification judges validity, causality, determinism and the round trip'),
    'C14': dict(
        mc=[('PredictorMC', 'PredictorMC.cfg')], mc_thorough=[('PredictorMC', 'PredictorMC_deep.cfg')],
        scenarios=[dict(name='model', traces=[('PredictorTrace', 'PredictorTrace.cfg')])],
        covers='every prediction of the real predictor over whole texts, and of its parts on synthetic contexts, '
               'against the specified pipeline in exact fixed-point arithmetic'),
    'C15': dict(
        mc=[], scenarios=[dict(name='protocol', calls=('ProtocolGen', 'ProtocolCover.cfg', 'ProtocolWalk.cfg', 400, 41),
                               traces=[('ProtocolTrace', 'ProtocolTrace.cfg')])],
        covers='for every reachable state of the protocol of every component and every call, a shortest way there and '
               'that call on the real component, and random walks of 40 calls; whether each call is refused'),
    'C16': dict(
        mc=[('BytesMC', 'BytesMC.cfg')], mc_thorough=[('BytesMC', 'BytesMC_deep.cfg')],
        scenarios=[dict(name='bytes', traces=[('BytesTrace', 'BytesTrace.cfg')])],
        covers='unfinished bytes and byte histories fed bit by bit, every accessor at every bit'),
    'C17': dict(
        mc=[('IndexMC', 'IndexMC.cfg')],
        scenarios=[dict(name='index', traces=[('IndexTrace', 'IndexTrace.cfg')])],
        covers='every tuple of small dimensions, chosen tuples of large ones, sizes that just fit or do not fit in 64 '
               'bits, tuples that must be refused; all counts that can be quantized'),
    'C19': dict(
        mc=[('SigmoidMC', 'SigmoidMC.cfg')],
        scenarios=[dict(name='sigmoid', traces=[('SigmoidTrace', 'SigmoidTrace.cfg')])],
        covers='a scan over all 2^31 probabilities and all stretched values of the real functions picks, per range, '
               'the arguments with the largest deviation, drop and asymmetry; these, boundaries and random arguments '
               'are judged by the specification'),
    'C20': dict(
        mc=[], scenarios=[dict(name='random', traces=[('MTTrace', 'MTTrace.cfg')])],
        covers='outputs of the real generator for many seeds against the Mersenne Twister recurrence; the published '
               'output vector checked on the specification itself'),
    'C18': dict(
        mc=[('FixedMC', 'FixedMC.cfg')],
        scenarios=[dict(name='fixed', traces=[('FixedTrace', 'FixedTrace.cfg')])],
        covers='operations of every fixed-point type on boundary and random operands, conversions from and to both '
               'floating-point types, and the types with permitted ranges of their own, with refusals'),
    'C21': dict(
        programs=True,
        mc=[('ReportMC', 'ReportMC.cfg')], mc_thorough=[('ReportMC', 'ReportMC_deep.cfg')],
        scenarios=[dict(name='report', traces=[('ReportTrace', 'ReportTrace.cfg')])],
        covers='every figure printed by the demixer program and by Predictor::print_state, at several points of whole '
               'texts, against sums over the specified contexts and the costs of the recorded predictions; large '
               'texts: against sums of blocks of recorded costs and contexts, and the size of the real code'),
    'C22': dict(
        programs=True,
        mc=[('HistoryMC', 'HistoryMC.cfg')],
        scenarios=[dict(name='listing', traces=[('ListingTrace', 'ListingTrace.cfg')])],
        covers='the listings printed by print_histories with each of the three sources, for empty, short, '
               'repetitive, random and too long files, against the specified histories'),
    'C23': dict(
        programs=True,
        mc=[('SimulationMC', 'SimulationMC.cfg')],
        thorough_seeds=1,
        scenarios=[dict(name='simulation', traces=[('SimulationTrace', 'SimulationTrace.cfg')])],
        covers='every row printed by entropy_simulations (order, counts, probability, ideal cost, overhead, ratio), '
               '128 of them (thorough: all) also bit by bit for the total cost; and the checksums of bench_sigmoid '
               'against sums over the specified samples'),
    'C24': dict(
        mc=[('NodePoolMC', 'NodePoolMC.cfg')], mc_thorough=[('NodePoolMC', 'NodePoolMC_deep.cfg')],
        scenarios=[dict(name='pool', traces=[('NodePoolTrace', 'NodePoolTrace.cfg')])],
        covers='histories of taking, replacing, updating, giving back and reading places in pools of 1 to 14 nodes, '
               'up to the refusal of one too many; children and nodes made of numbers around the ends of their ranges'),
}
