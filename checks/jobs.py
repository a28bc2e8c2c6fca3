"""Which symbolic jobs decide each property."""
PROPS = {}

def J(crate, entry, *params, **kw):
    return dict(crate=crate, entry=entry, params=list(params), **kw)

INV, MATCH, EDIT, CROSS = 1, 2, 4, 8
SIDES = [0, 7, 1, 3, 5]
# operation codes of ob_seq (0 ends the list)
LIM, MKT, CANCEL, MODIFY, CHQ, RM, CHP = [1, 2], [3, 4], [5], [6], [7], [8, 9], [10, 11]
ALLOPS = LIM + MKT + CANCEL + MODIFY + CHQ + RM + CHP
OBB = 'histories of up to %s; every price in [-2^62, 2^62], every quantity in [1, 2^40] (new quantities of a quantity change from 0), every choice of target order id including one never issued'
OBO = 'longer histories; new orders of quantity 0; prices equal to the empty-book sentinels i64::MIN/MAX; re-used order ids'

PROPS['O01'] = dict(
    bounds=OBB % '4 operations (3 limit orders then one operation, or 2 limit orders then 2 operations)', outside=OBO,
    jobs=[J('te', 'ob_seq', INV, b, 3, o, time=50, cover=['end']) for b in [0, 7, 5] for o in LIM + MKT + CANCEL + MODIFY + RM]
       + [J('te', 'ob_seq', INV, b, 2, o, time=50, cover=['end']) for b in [0, 3, 1] for o in CHQ + CHP]
       + [J('te', 'ob_seq', INV, b, 2, o, p, time=40, cover=['end']) for b in [0, 3] for o in (5, 6, 8 if b == 0 else 9) for p in (3, 4, 6)]
       + [J('te', 'ob_seq', INV, b, 2, 7, p, time=40, cover=['end']) for b, p in [(0, 4), (3, 3)]]
       + [J('te', 'ob_seq', INV, b, 3, o, p, time=300, tier='thorough') for b in range(8) for o in ALLOPS for p in ALLOPS])
PROPS['O02'] = dict(
    bounds=OBB % '5 operations (3 limit orders then 2 incoming orders; 4 limit orders then 1)', outside=OBO,
    jobs=[J('te', 'ob_seq', MATCH, b, 3, o, p, time=60, cover=['end']) for b in SIDES for o in LIM + MKT for p in LIM + MKT]
       + [J('te', 'ob_seq', MATCH, b, 4, o, time=60, cover=['end']) for b in [0, 15, 1, 3, 7, 5, 6, 9] for o in LIM + MKT]
       + [J('te', 'ob_seq', MATCH, b, 4, o, p, time=300, tier='thorough') for b in range(16) for o in LIM + MKT for p in LIM + MKT]
       + [J('te', 'ob_seq', MATCH, b, 5, o, time=300, tier='thorough') for b in range(32) for o in LIM + MKT])
EDITS = CANCEL + MODIFY + CHQ + RM + CHP
PROPS['O03'] = dict(
    bounds=OBB % '5 operations (3 limit orders then 1 edit; 2 limit orders then 2 edits, or an edit and an incoming order)', outside=OBO,
    jobs=[J('te', 'ob_seq', EDIT, b, 3, o, time=60, cover=['end']) for b in SIDES for o in EDITS]
       + [J('te', 'ob_seq', EDIT, b, 2, o, p, time=60, cover=['end']) for b in [0, 3, 1] for o in EDITS for p in EDITS + LIM + MKT]
       + [J('te', 'ob_seq', EDIT, b, 3, o, p, time=300, tier='thorough') for b in range(8) for o in EDITS for p in EDITS + LIM + MKT])
PROPS['O04'] = dict(
    bounds=OBB % '5 operations (3 limit orders then 2 operations)', outside=OBO,
    jobs=[J('te', 'ob_seq', CROSS, b, 3, o, p, time=60, cover=['end']) for b in SIDES for o in ALLOPS if o not in CHP for p in LIM + [6]]
       + [J('te', 'ob_seq', CROSS, b, 4, o, p, time=300, tier='thorough') for b in range(16) for o in ALLOPS if o not in CHP for p in LIM + [6]])
PROPS['O05'] = dict(
    bounds='up to 3 consecutive snapshots of up to 2-3 levels per side, every set of distinct prices in [-2^62, 2^62] and every quantity in [1, 2^40]; side comparison for up to 3 levels',
    outside='snapshots with repeated prices or zero quantities; mixing whole-snapshot updates with order-by-order updates on one book',
    jobs=[J('te', 'ob_snap', *p, time=60, cover=['end']) for p in [(1, 1, 9, 0), (2, 2, 9, 0), (2, 1, 9, 1), (1, 2, 9, 1), (2, 2, 9, 1), (2, 2, 2, 0), (2, 2, 2, 1), (2, 0, 9, 0), (2, 0, 1, 1), (0, 1, 0, 1), (1, 0, 9, 4), (2, 0, 1, 4), (2, 2, 9, 4), (1, 2, 9, 4), (3, 3, 0, 0), (3, 1, 2, 0), (2, 2, 9, 2), (2, 2, 9, 3), (1, 2, 1, 2), (1, 2, 1, 3), (2, 0, 2, 2), (2, 0, 2, 3), (3, 1, 9, 2), (3, 1, 9, 3), (1, 3, 9, 2), (1, 3, 9, 3)]]
       + [J('te', 'ob_snap_misc', 3, b, time=60, cover=['end']) for b in [0, 1, 3, 7]]
       + [J('te', 'ob_eq', a, b, k, time=60, cover=['end']) for a, b in [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 1), (2, 3)] for k in (0, 1)]
       + [J('te', 'ob_snap', *p, time=400, tier='thorough') for p in [(3, 3, 9, 2), (3, 3, 9, 3), (2, 2, 2, 2), (2, 2, 2, 3), (3, 3, 3, 0), (3, 3, 3, 1), (3, 3, 9, 0), (4, 4, 0, 0)]])

END = ['end']
CFG = [(5, 3, 1, 0, 0), (4, 4, 1, 1, 0), (9, 0, 0, 2, 0), (18, 4, 0, 0, 1), (15, 3, 1, 0, 0), (7, 1, 1, 1, 0), (16, 2, 1, 2, 0), (19, 0, 0, 0, 0)]
PARSE = [(0, n, 0) for n in range(1, 9)] + [(1, n, 0) for n in range(1, 17)] + [(2, n, 0) for n in range(16, 21)]
PARSE_B = 'every digit string of length 1-8 (parse_under8), 1-16 (parse_under16), 16-20 with and 16-32 without decimal point (parse_under32), every position of the point, every content of the 3 bytes before and 32 bytes after the field'
PROPS['P01'] = dict(
    bounds=PARSE_B + '; two- and three-digit parsers; HHMMSS', outside='fields of more than 20 digits with a decimal point; non-digit bytes inside the field (the parsers do not validate)',
    jobs=[J('te', 'num_parse', *p, time=60, cover=END) for p in PARSE] + [J('te', 'num_wide', n, time=60, cover=END) for n in range(16, 33)] + [J('te', 'num_small', time=60, cover=END)]
       + [J('te', 'num_parse', 2, n, z, time=400, tier='thorough') for n, z in [(21, 3), (22, 4), (24, 6), (26, 8), (32, 14)]])
PROPS['P02'] = dict(
    bounds='eight field layouts covering sign, unused bytes, decimal point, dropped decimals, 4-19 digits, and every product layout of the exchange converters; every digit content, every sign, every surrounding content',
    outside='non-digit bytes (the converters do not validate); other digit counts',
    jobs=[J('te', 'num_cfg', *p, time=60, cover=END) for p in CFG] + [J('te', 'num_real', *p, time=60, cover=END) for p in [(5, 3, 0), (9, 0, 5)]]
       + [J('te', 'krx_field', k, time=60, cover=END) for k in range(8)] + [J('te', 'krx_field_misc', time=60, cover=END)]
       + [J('te', 'num_cfg', *p, time=400, tier='thorough') for p in [(6, 3, 1, 2, 0), (8, 0, 1, 0, 0), (8, 1, 0, 0, 1), (12, 3, 1, 1, 0), (17, 0, 1, 3, 0), (18, 0, 1, 0, 0), (1, 0, 0, 0, 0), (2, 2, 1, 0, 0), (10, 5, 0, 0, 0)]]
       + [J('te', 'num_real', *p, time=400, tier='thorough') for p in [(5, 3, 3), (12, 4, 0), (7, 0, 0)]])
PROPS['P03'] = dict(
    bounds='sequences of up to 3 messages, every time of day HHMMSSuuuuuu, every base date in the year 2024-2025 window chosen', outside='messages more than nine hours apart (where falling back is ambiguous); invalid times of day',
    jobs=[J('te', 'krx_time', n, time=60, cover=END) for n in (1, 2, 3)] + [J('te', 'krx_dategen', time=60, cover=END), J('te', 'num_small', time=60, cover=END)]
       + [J('te', 'krx_time', n, time=600, tier='thorough') for n in (4, 5)])
KRXB = 'every digit content of every price, quantity, order count and time field and every content of the bytes between fields; signs of the level prices all positive, all negative or exactly one negative; ISIN prefixes of every supported product kind; '
PROPS['P04'] = dict(
    bounds=KRXB + 'level cuts 0-5 / 0-10, with reused buffers of the same or more levels and arbitrary previous content', outside='messages with non-digit field bytes; ISIN codes other than the sampled ones of each product kind',
    jobs=[J('te', 'krx_0034', k, c, x, time=90, cover=END) for k, c, x in [(0, 5, 0), (1, 5, 0), (2, 5, 0), (3, 5, 0), (0, 1, 0), (1, 3, 2), (2, 0, 3)]]
       + [J('te', 'krx_0035', k, c, x, time=90, cover=END) for k, c, x in [(0, 10, 0), (1, 10, 0), (2, 10, 0), (3, 10, 0), (3, 4, 2)]]
       + [J('te', 'krx_level_cut', time=60, cover=END)]
       + [J('te', 'krx_0034', k, c, x, time=400, tier='thorough') for k in range(4) for c in range(6) for x in (0, 1)]
       + [J('te', 'krx_0035', k, c, x, time=400, tier='thorough') for k in range(4) for c in (1, 6, 9, 10) for x in (0, 1)])
PROPS['P05'] = dict(
    bounds=KRXB + 'level cuts 0-5 / 0-10, with reused buffers of the same or more levels and arbitrary previous content', outside='messages with non-digit field bytes; ISIN codes other than the sampled ones of each product kind',
    jobs=[J('te', 'krx_0036', k, time=90, cover=END) for k in range(4)]
       + [J('te', 'krx_0037', k, c, x, time=90, cover=END) for k, c, x in [(0, 5, 0), (1, 5, 0), (2, 5, 0), (3, 5, 0), (1, 3, 2), (2, 0, 3)]]
       + [J('te', 'krx_0038', k, c, x, time=120, cover=END) for k, c, x in [(0, 10, 0), (2, 10, 0), (3, 10, 0), (1, 4, 2)]]
       + [J('te', 'krx_level_cut', time=60, cover=END)]
       + [J('te', 'krx_0037', k, c, x, time=400, tier='thorough') for k in range(4) for c in range(6) for x in (0, 1)]
       + [J('te', 'krx_0038', k, c, x, time=400, tier='thorough') for k in range(4) for c in (1, 6, 10) for x in (0, 1)])
PROPS['P06'] = dict(
    bounds='every digit content of every price, quantity and time field and every content of the bytes between fields; level cuts 0-10, with reused buffers of the same or more levels and arbitrary previous content', outside='messages with non-digit field bytes; other ISIN codes',
    jobs=[J('te', e, 4, c, x, time=90, cover=END) for e in ('krx_0002', 'krx_0003') for c, x in [(10, 0), (4, 2), (1, 0), (0, 3)]] + [J('te', 'krx_level_cut', time=60, cover=END)]
       + [J('te', e, 4, c, x, time=400, tier='thorough') for e in ('krx_0002', 'krx_0003') for c in range(11) for x in (0, 1)])
PROPS['P07'] = dict(
    bounds='every decoder; frames of nine lengths around the required one, any value in place of the end marker, any illegal identifier byte at each position; an arbitrary byte at the start, in the identifier or at the end of the rejected frame; arbitrary bytes in every field of an accepted frame',
    outside='two or more arbitrary bytes at once in a rejected frame (thorough: two)',
    jobs=[J('te', 'krx_bad', k, w, 1, time=90, cover=END) for k in range(7) for w in (0, 1, 2, 3) if (k, w) != (6, 3)]
       + [J('te', 'krx_any', k, c, time=60, cover=END) for k in range(7) for c in (0, 2) if k != 6 or c == 0]
       + [J('te', 'krx_bad', k, w, 2, time=900, tier='thorough') for k in range(7) for w in (0, 1, 3) if (k, w) != (6, 3)])

PROPS['I01'] = dict(
    bounds='ISIN codes of every length 0-13 with one arbitrary byte at any position; pairs of ISIN codes of 12 arbitrary legal bytes; hashes over 4 arbitrary bytes; pairs of tickers of up to 32 arbitrary bytes; pairs of interned ids over 5 symbols and 5 venues (thorough: triples)',
    outside='more than one illegal byte at once; interning from several threads',
    jobs=[J('te', 'id_accept', cover=END), J('te', 'id_eq', cover=END), J('te', 'id_hash', 0, cover=END), J('te', 'id_hash', 8, cover=END), J('te', 'id_intern', 2, cover=END)]
       + [J('te', 'id_ticker', *p, cover=END) for p in [(5, 5), (5, 7), (32, 32), (33, 34), (0, 3)]]
       + [J('te', 'id_ticker', *p, time=300, tier='thorough') for p in [(31, 32), (1, 1), (12, 12), (16, 17), (0, 0)]] + [J('te', 'id_intern', 3, time=300, tier='thorough')])
PROPS['C01'] = dict(
    bounds='2 threads with 2 calls or 3 threads with 1 call, every interleaving for the unbounded counters and up to 2 preemptions for the bounded ones; every start (and end) value below 2^62', outside='weak-memory reorderings (sequentially consistent interleavings are explored); wrap-around at 2^64',
    jobs=[J('te', 'cnt_threads', k, *p, cover=END) for k in (0, 1) for p in [(2, 2), (3, 1)]]
       + [J('te', 'cnt_threads', k, *p, cover=END, switches=w) for k in (2, 3) for p, w in [((2, 2), 2), ((3, 2), 1)]] + [J('te', 'cnt_virtual_id', cover=END)]
       + [J('te', 'cnt_threads', k, *p, time=600, tier='thorough', switches=w) for k in range(4) for p, w in [((3, 2), 3), ((2, 3), 3), ((4, 1), 3)]])
PROPS['C02'] = dict(
    bounds='every nanosecond of every time stamp for the components; every day of 2000, 2024 and 2100 (thorough: of 13 years from 1971 to 2100), every hour, minute, second, milli-, micro- and nanosecond for the text forms with offsets 0, +9, -5, +14, -12; differences of up to 2^50 ns between stamps below 2^62',
    outside='combinations of several symbolic text components at once; stamps before 1970-01-02 with negative offsets',
    jobs=[J('te', 'tm_components', cover=END), J('te', 'tm_diff', cover=END)] + [J('te', 'tm_dategen', y, time=90, cover=END) for y in (2024, 1999)]
       + [J('te', 'tm_text', 2024, k, time=100, cover=END) for k in range(7)]
       + [J('te', 'tm_text', 2100, 0, time=100, cover=END), J('te', 'tm_text', 2000, 6, time=100, cover=END)]
       + [J('te', e, y, *k, time=400, tier='thorough') for y in (1971, 1972, 1980, 1999, 2000, 2001, 2023, 2025, 2038, 2099, 2100) for e, k in [('tm_dategen', ()), ('tm_text', (0,)), ('tm_text', (1,)), ('tm_text', (6,))]])
PROPS['S01'] = dict(
    bounds='every history of 5 operations of two registered workers, an unregistered one and the writer, with any ids; one writer (2 attempts) and one or two workers (2 attempts) under every interleaving with up to 3 preemptions',
    outside='weak-memory reorderings; more than one writer (the queue is documented for one)',
    jobs=[J('te', 'q_ids', cover=END), J('te', 'q_history', 3, cover=END), J('te', 'q_history', 5, cover=END), J('te', 'q_default', cover=END)]
       + [J('te', 'q_threads', *p, cover=END, switches=w) for p, w in [((1, 2, 2), 4), ((2, 2, 2), 3), ((1, 3, 3), 3)]]
       + [J('te', 'q_history', 7, time=400, tier='thorough')] + [J('te', 'q_threads', *p, time=600, tier='thorough', switches=w) for p, w in [((2, 3, 2), 4), ((1, 4, 4), 5), ((2, 3, 3), 3)]])
PROPS['F01'] = dict(
    bounds='quotes of 1-3 levels with every price in [-2^20, 2^20] and quantity in [0, 2^20] under three converters; two consecutive snapshots for order flow; trade histories of up to 3 trades; up to 3 observations of integer value in [-1000, 1000] after 0, 1/2, 1 or 3 time units; every interval up to 2^50 ns for the weight',
    outside='quantities of a whole ask side being zero for the volume-weighted price (reported as absent); logarithm and power are uninterpreted functions (compared by argument)',
    jobs=[J('te', 'ft_quotes', *p, cover=END, time=60) for p in [(1, 0, 0, 0, 1), (1, 0, 1, 0, 1), (2, 0, 0, 0, 1), (2, 1, 1, 0, 1), (2, 1, 0, 1, 1), (2, 0, 2, 1, 0), (2, 0, 0, 2, 1), (3, 1, 2, 1, 1)]]
       + [J('te', 'ft_refuse', *p, cover=END) for p in [(2, 1), (1, 0), (3, 2)]] + [J('te', 'ft_ofi', *p, cover=END, time=60) for p in [(1, 0), (2, 1), (3, 1), (1, 2)]]
       + [J('te', 'ft_ofi_level', *p, cover=END) for p in [(2, 2, 0), (2, 2, 2), (2, 2, 3), (2, 1, 2), (1, 2, 2), (1, 3, 1)]] + [J('te', 'ft_lnofi', cover=END)]
       + [J('te', 'ft_ewm', n, k, cover=END, time=60) for n, k in [(2, 0), (3, 2), (2, 1), (2, 3), (2, 4), (2, 5)]] + [J('te', 'ft_weight', k, cover=END) for k in range(6)] + [J('te', 'ft_trades', n, cover=END) for n in (0, 1, 3)]
       + [J('te', 'ft_quotes', n, x, k, h, 1, time=400, tier='thorough') for n in (1, 2, 3, 5) for x in (0, 2) for k in range(3) for h in range(3)] + [J('te', 'ft_ofi', n, k, time=400, tier='thorough') for n in (1, 2, 5) for k in range(3)] + [J('te', 'ft_ewm', 4, k, time=400, tier='thorough') for k in range(6)])

ADJ = [(k, *x) for k, xs in [(0, [(2025, 3, 3, 3)]), (1, [(2024, 12, 29, 6), (2024, 2, 26, 6)]), (2, [(2024, 3, 2, 6), (2025, 1, 3, 6)]),
       (3, [(2024, 2, 28, 6), (2023, 2, 27, 6), (2024, 12, 29, 6), (2025, 6, 15, 6)]), (4, [(2024, 3, 2, 6), (2025, 1, 2, 6), (2025, 6, 15, 6)])] for x in xs]
PROPS['D01'] = dict(
    bounds='an arbitrary holiday set in windows of 13 days (thorough: 21) around month, year and February ends, dates within two days of the middle, every time of day at offsets 0, +9, -5, -12; the built-in calendars with two more holidays anywhere in the month of the date, every date of 2024 and 2025',
    outside='runs of more than about ten holidays',
    jobs=[J('ql', 'adj_any', *p, time=60, cover=END) for p in ADJ] + [J('ql', 'adj_market', k, c, y, time=60, cover=END) for k, c, y in [(3, 1, 2025), (3, 3, 2024), (4, 2, 2025), (4, 5, 2024), (1, 4, 2024), (2, 0, 2025), (3, 7, 2024)]]
       + [J('ql', 'adj_any', k, *x, 10, time=300, tier='thorough') for k in range(1, 5) for x in [(2023, 12, 30), (2024, 3, 1), (2024, 2, 28), (2025, 4, 30), (2100, 3, 1)]]
       + [J('ql', 'adj_market', k, c, y, time=300, tier='thorough') for k in range(5) for c in range(8) for y in (2023, 2024, 2025, 2026)])
PROPS['D02'] = dict(
    bounds='every date and hour of 2023-2025 in eight calendars at offsets -12, -5, 0, +9, +12; up to two added and two removed dates anywhere in the month; joint calendars of two or three members',
    outside='longer lists of added or removed dates',
    jobs=[J('ql', 'hol_sets', *p, time=90, cover=END) for p in [(0, 2025, 1, 1, 12), (1, 2023, 1, 1, 12), (1, 2024, 0, 1, 21), (2, 2025, 2, 0, 7), (3, 2025, 1, 1, 21), (4, 2024, 0, 2, 7), (5, 2023, 1, 0, 0), (6, 2025, 0, 1, 24), (7, 2024, 1, 1, 12)]]
       + [J('ql', 'hol_joint', *p, time=90, cover=END) for p in [(1, 3, 2025, 12, 0), (2, 4, 2024, 21, 1), (0, 5, 2023, 7, 0), (7, 0, 2024, 0, 1)]]
       + [J('ql', 'hol_sets', k, y, a, r, o, time=400, tier='thorough') for k in range(8) for y in (2023, 2026) for a, r in ((2, 2), (1, 1)) for o in (0, 12, 24)]
       + [J('ql', 'hol_joint', *p, time=400, tier='thorough') for p in [(a, b, 2026, o, t) for a, b in [(1, 3), (2, 5), (4, 6), (3, 3)] for o in (0, 24) for t in (0, 1)]])
PROPS['D04'] = dict(
    bounds='every pair of dates within one year (2023, 2024; some conventions 2000 and 2100 and around 1900), in neighbouring years and two to four years apart, for each convention and calendar; a later end date by one day; time differences from four start instants to every date and hour of the same and the following years; leap years 1 to 9998, month lengths 1999-2004',
    outside='periods of more than five years (thorough: ten)',
    jobs=[J('ql', 'dc_formula', k, y, n, c, j, time=80, cover=END) for k in range(6) for y, n, c, j in [(2024, 0, 0, 0), (2023, 1, 1, 0), (2024, 2, 3, 1)]]
       + [J('ql', 'dc_formula', k, 2019, 4, c, 0, time=80, cover=END) for k, c in [(0, 2), (3, 4), (4, 5), (5, 7)]]
       + [J('ql', 'dc_formula', *p, time=80, cover=END) for p in [(4, 2000, 0, 0, 0), (4, 2099, 1, 0, 0), (4, 1899, 1, 3, 0), (3, 1999, 1, 0, 0), (0, 2100, 0, 0, 0), (5, 2100, 0, 0, 0)]]
       + [J('ql', 'dc_monotone', k, y, time=80, cover=END) for k in (0, 1, 2, 3, 5) for y in (2023, 2024)]
       + [J('ql', 'dc_time', *p, time=60, cover=END) for p in [(2024, 0, 0, 2, 28, 0), (2023, 0, 23, 5, 31, 0), (2024, 1, 0, 2, 28, 0), (2024, 2, 7, 12, 31, 0), (2022, 1, 5, 3, 3, 0), (2000, 0, 0, 2, 28, 0), (2099, 1, 0, 2, 28, 0), (2100, 0, 0, 2, 28, 0)]]
       + [J('ql', 'dc_time', 2024, 1, 0, 2, 28, 1, time=60), J('ql', 'dc_months', 0, time=60, cover=END)]
       + [J('ql', 'dc_formula', k, y, n, c, 0, time=400, tier='thorough') for k in range(6) for y, n, c in [(2099, 1, 0), (1999, 2, 1), (2000, 3, 5), (2016, 9, 0), (2096, 5, 0)]])
def HOL(k, a, b, w, **kw): return [J('ql', 'hol_rules', k, y, min(w, b - y + 1), time=60, cover=END, **kw) for y in range(a, b + 1, w)]
PROPS['D06'] = dict(
    bounds='every day of 1951-2050 for Korea and of 1969-2040 for the United States (thorough: to 2199)', outside='earlier years of the United States rules; special closings after those listed in the code',
    jobs=HOL(1, 1951, 2050, 10) + HOL(2, 1951, 2050, 10) + [j for k in (3, 4, 5, 6, 7) for j in HOL(k, 1969, 2040, 8)]
       + [j for k in (3, 4, 5, 6, 7) for j in HOL(k, 2041, 2199, 20, tier='thorough')])

BIG = 80000000
PROPS['D03'] = dict(
    bounds='every date of one to three years; counts 1-13, 24, 35, 120, 185 and 250 of months, 1-3 and 10, 50 of years, 0-100 of weeks and days, up to 100 hours, 1500 minutes and 100000 seconds (one count per run), at three offsets; six compound tenors at month ends at several hours',
    outside='symbolic counts (the tenor text is parsed by a regular-expression library); malformed tenor text',
    jobs=[J('ql', 'tenor_one', op, 1, y, v, n, w, time=80, cover=END, steps=BIG) for op, y in [(0, 2023), (1, 2024), (2, 2024), (3, 2023)] for v, n, w in [(1, 4, 1), (5, 4, 1), (9, 4, 1), (13, 3, 11), (120, 3, 65)] if op < 3 or v < 120]
       + [J('ql', 'tenor_one', op, 0, 2024, 1, 3, 1, time=80, cover=END, steps=BIG) for op in range(4)] + [J('ql', 'tenor_one', op, 0, 2000, 10, 2, 40, time=80, cover=END, steps=BIG) for op in (0, 1)]
       + [J('ql', 'tenor_one', op, u, y, v, 2, w, time=80, cover=END, steps=BIG) for op, u, y, v, w in [(0, 2, 2023, 1, 52), (1, 2, 2024, 2, 51), (2, 2, 2024, 1, 8), (3, 2, 2025, 1, 53), (0, 3, 2024, 0, 100), (1, 3, 2023, 1, 30), (2, 3, 2023, 1, 364), (3, 3, 2024, 1, 364), (0, 4, 2024, 1, 99), (1, 4, 2024, 8, 17), (0, 5, 2024, 30, 1470), (1, 5, 2023, 451, 1000), (0, 6, 2023, 59, 60000), (1, 6, 2024, 2, 99998)]]
       + [J('ql', 'tenor_many', op, l, y, h, time=80, cover=END, steps=BIG) for op, l, y, h in [(0, 0, 2024, 0), (1, 0, 2023, 0), (0, 1, 2023, 1), (1, 1, 2024, 1), (2, 2, 2024, 0), (3, 3, 2023, 0), (0, 4, 2024, 0), (1, 4, 2024, 0), (0, 5, 2024, 0), (1, 5, 2024, 0), (1, 3, 2024, 0), (2, 5, 2023, 0)]]
       + [J('ql', 'tenor_one', op, 1, y, v, 12, 1, time=400, tier='thorough', steps=BIG) for op in range(3) for y in (2000, 2023, 2024, 2100) for v in (1, 13, 25, 121)]
       + [J('ql', 'tenor_one', op, u, y, v, 4, 7, time=400, tier='thorough', steps=BIG) for op in range(4) for u in (2, 3) for y in (1999, 2024) for v in (1, 30, 300)])
SCHED = [(1, 0, 3, 2024, 1, 12, 0, 2, 1), (0, 0, 3, 2024, 8, 19, 5, 1, 1), (1, 0, 3, 2024, 1, 2, 0, 2, 1), (0, 6, 1, 2024, 2, 1, 3, 3, 1), (1, 1, 4, 2023, 5, 30, 0, 4, 1), (0, 2, 0, 2024, 2, 36, 9, 5, 1), (1, 3, 1, 2024, 10, 3, 1, 1, 1), (0, 1, 2, 2022, 11, 40, 0, 3, 0),
         (0, 3, 3, 2023, 12, 14, 0, 7, 1), (1, 4, 1, 2023, 3, 13, 0, 0, 0), (0, 5, 4, 2024, 1, 9, 20, 6, 1), (1, 7, 3, 2024, 2, 2, 3, 1, 1), (0, 8, 1, 2024, 4, 0, 6, 1, 1), (0, 0, 0, 2024, 5, 1, 0, 1, 1), (1, 2, 3, 2024, 6, 0, 0, 1, 0), (0, 9, 2, 2025, 1, 1, 2, 2, 1), (1, 1, 1, 2023, 8, 6, 0, 1, 1), (0, 1, 1, 2023, 8, 6, 0, 1, 1), (0, 0, 3, 2023, 3, 30, 0, 2, 0)]
PROPS['D05'] = dict(
    bounds='forward and backward generation, nine frequencies, five conventions, seven calendars with one extra holiday anywhere in the maturity year, six start days of a month, lengths up to 40 months with and without stubs, four pairs of fixing and payment gaps; negative gaps',
    outside='longer schedules; gaps above five days',
    jobs=[J('ql', 'sched', *p, time=60, cover=END, steps=BIG) for p in SCHED] + [J('ql', 'sched_refuse', 0, time=60, cover=END)]
       + [J('ql', 'sched', d, f, k, y, m, n, x, c, 1, time=400, tier='thorough', steps=BIG) for d in (0, 1) for f, n, x in [(0, 15, 0), (0, 16, 20), (1, 26, 3), (2, 48, 1), (3, 5, 0), (6, 1, 2)] for k in range(5) for y, m, c in [(2024, 1, 2), (2023, 8, 3), (2022, 11, 6)]])

PROPS['M01'] = dict(
    bounds='integer grids of up to 5 points with up to 3 queries and single-precision grids of up to 4 points with up to 3 queries (any non-NaN value), with and without repeated points; both the slice and the array form (thorough: 7 points)',
    outside='longer grids; NaN; the list form on grids with repeated points',
    jobs=[J('ql', 'find', *p, time=60, cover=END) for p in [(1, 2, 0, 0), (2, 3, 0, 0), (3, 3, 0, 0), (4, 3, 0, 0), (5, 1, 0, 0), (5, 2, 0, 1), (3, 3, 0, 1), (6, 1, 0, 1), (1, 1, 1, 0), (2, 2, 1, 0), (3, 2, 1, 0), (4, 1, 1, 0), (3, 2, 1, 1), (4, 1, 1, 1)]]
       + [J('ql', 'find', *p, time=400, tier='thorough', cover=END) for p in [(5, 3, 0, 0), (6, 3, 0, 0), (7, 2, 0, 0), (3, 3, 1, 0), (4, 2, 1, 0), (5, 2, 1, 0), (7, 2, 0, 1), (5, 2, 1, 1), (9, 1, 0, 0), (9, 1, 0, 1)]])
QF = {'quiet-fmt': 1, 'time': 60, 'cover': END}
PROPS['M02'] = dict(
    bounds='grids of 2-5 increasing integer-valued nodes up to 4096 in size and integer node values up to 4096 (32-bit stepwise domains: any), every query from -5000 to 5000, alone and in sorted lists of 3, every extrapolation setting; bilinear surfaces up to 3 by 3; a tolerance of 2e-6 where the order of operations may differ',
    outside='non-integer grids and values; longer grids; the text of error messages for symbolic numbers is left out; monotone surfaces beyond the bilinear formula',
    jobs=[J('ql', 'ip_linear', n, q, a, e, **QF) for n, q, a, e in [(2, 1, 0, 0), (3, 1, 0, 2), (3, 1, 1, 0), (3, 1, 1, 1), (3, 1, 1, 2), (3, 3, 0, 1), (3, 3, 1, 0), (3, 3, 1, 1), (3, 3, 1, 2), (4, 2, 1, 1), (5, 1, 1, 2), (3, 0, 0, 0), (3, 0, 1, 2)]]
       + [J('ql', 'ip_step', *p, **QF) for p in [(1, 1, 1, 1, 1), (3, 1, 0, 0, 0), (3, 3, 0, 1, 1), (3, 3, 1, 0, 0), (3, 3, 1, 1, 0), (3, 3, 1, 0, 1), (4, 2, 1, 1, 1), (2, 3, 1, 0, 1)]]
       + [J('ql', 'ip_between', n, k, **QF) for n, k in [(2, 1), (3, 1)]]
       + [J('ql', 'ip_bilinear', *p, **QF) for p in [(2, 2, 0, 0, 0, 0, 0), (2, 2, 1, 2, 1, 1, 0), (3, 2, 1, 2, 0, 0, 0), (2, 3, 1, 1, 1, 2, 0), (3, 3, 1, 1, 1, 1, 1), (2, 2, 1, 2, 0, 1, 1), (3, 2, 1, 0, 1, 2, 0), (3, 3, 0, 1, 0, 2, 1)]]
       + [J('ql', 'ip_linear', n, q, a, e, **dict(QF, time=400, tier='thorough')) for n in (4, 5, 6) for q in (2, 3, 4) for a, e in [(0, 1), (1, 0), (1, 1), (1, 2)]]
       + [J('ql', 'ip_step', n, q, *p, **dict(QF, time=400, tier='thorough')) for n in (4, 5) for q in (3, 4) for p in [(0, 0, 0), (1, 0, 1), (1, 1, 0)]]
       + [J('ql', 'ip_bilinear', n, m, *p, **dict(QF, time=400, tier='thorough')) for n, m in [(3, 3), (4, 3), (3, 4)] for p in [(0, 0, 0, 0, 0), (1, 2, 1, 2, 0), (1, 1, 1, 1, 0), (1, 1, 1, 1, 1)]]
       + [J('ql', 'ip_between', 2, 2, **dict(QF, time=400, tier='thorough'))])
PROPS['M03'] = dict(
    bounds='2-5 increasing integer-valued nodes, every integer observation time from -5000 to 5000, integer values up to 4096 added to what is already there; exact sums on a grid with steps of eight',
    outside='non-integer nodes and times; the sum of the two parts is exact only where the weights are',
    jobs=[J('ql', 'dist', n, e, time=60, cover=END) for n, e in [(2, 0), (3, 0), (4, 0), (5, 0), (2, 1), (3, 1), (4, 1)]] + [J('ql', 'dist', n, e, time=400, tier='thorough', cover=END) for n, e in [(7, 0), (9, 0), (7, 1)]])

PROPS['M05'] = dict(
    bounds='up to three dividends on any days of a 16-day window with dyadic ratios, up to two (thorough three) moves of the evaluation date to any day of a 26-day window and back, a bump after either, ex-dates and evaluation dates at equal and at different hours; bumps over every interval; two and three dividends of any ratio up to 0.39 passed by tenor steps',
    outside='ex-dates not strictly increasing; more dividends and moves; other observers',
    jobs=[J('ql', 'div_moves', *p, time=120, cover=END) for p in [(1, 1, 0, 0, 16), (2, 1, 0, 0, 0), (2, 1, 1, 0, 0), (2, 1, 1, 0, 16), (2, 1, 0, 16, 9), (2, 2, 0, 0, 16), (2, 2, 1, 0, 16), (3, 1, 1, 0, 16), (1, 3, 2, 0, 0)]]
       + [J('ql', 'div_moves', *p, time=600, tier='thorough', cover=END) for p in [(3, 2, 0, 0, 16), (3, 2, 2, 0, 0), (2, 3, 1, 0, 16), (4, 1, 1, 0, 16)]]
       + [J('ql', 'div_bump', *p, time=120, cover=END) for p in [(1, 3), (2, 0), (2, 1), (2, 2)]] + [J('ql', 'div_bump', *p, time=400, tier='thorough', cover=END) for p in [(2, 3), (3, 0), (3, 1)]]
       + [J('ql', 'div_values', n, time=60, cover=END, steps=BIG) for n in (2, 3)])
PROPS['K01'] = dict(
    bounds='every text of up to 4 letters; each of the currencies by itself and every ordered pair of them; every fx text of two codes',
    outside='longer texts; nothing else: the codes are a finite set',
    jobs=[J('ql', 'cur_text', n, time=60, cover=['known', 'other'] if n == 3 else ['other']) for n in (0, 2, 3, 4)] + [J('ql', 'cur_each', time=60, cover=END), J('ql', 'fx_pair', 0, time=60, cover=END), J('ql', 'fx_pair', 1, time=60, cover=END), J('ql', 'fx_text', time=60, cover=END)])
PROPS['E02'] = dict(
    bounds='every value of every numeric setting (single-precision values with their infinities and NaN), every combination of the switches, given to `new` or set one after the other, beginning with each of the 24 settings',
    outside='the text of error messages; the order of more than two setters',
    jobs=[J('ql', 'cfg_new', 0, **dict(QF, cover=['refused', 'accepted']))] + [J('ql', 'cfg_set', k, **QF) for k in range(24)] + [J('ql', 'cfg_default', **QF)])
PF = {'time': 200, 'cover': END, 'steps': BIG, 'quiet-fmt': 1}
PFD = dict(PF, cover=['refused', 'distributed'])
PROPS['E01'] = dict(
    bounds='every portfolio of up to 2 instruments drawn from nine kinds (3 from groups of three kinds), two currencies and two underlyings, the group rules of the engine and one-kind rules',
    outside='larger portfolios; what the engines compute (see G01)',
    jobs=[J('ql', 'pf_distribute', *p, **PFD) for p in [(2, 5, 1), (3, 1, 1), (3, 2, 1)]] + [J('ql', 'pf_distribute', *p, **dict(PFD, time=400, tier='thorough')) for p in [(2, 0, 2), (2, 4, 2), (3, 0, 1), (3, 3, 1), (3, 4, 1)]])
PROPS['E03'] = dict(
    bounds='every portfolio of up to 3 instruments drawn from groups of three of the nine kinds (pairs from all nine), two currencies, two underlyings, every maturity day of a 26-day window and every query date in it',
    outside='larger portfolios; instrument names with characters outside the examples',
    jobs=[J('ql', 'pf_lists', *p, **PF) for p in [(0, 5), (1, 5), (2, 5), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4)]] + [J('ql', 'pf_maturity', *p, **PF) for p in [(1, 5, 0), (2, 5, 0), (3, 0, 1), (3, 1, 0)]] + [J('ql', 'pf_curves', *p, **PF) for p in [(1, 5), (2, 5), (3, 2), (3, 0)]]
       + [J('ql', 'pf_lists', 4, k, **dict(PF, time=400, tier='thorough')) for k in range(5)] + [J('ql', 'pf_maturity', 3, k, m, **dict(PF, time=400, tier='thorough')) for k in range(5) for m in (0, 1)] + [J('ql', 'pf_curves', 3, k, **dict(PF, time=400, tier='thorough')) for k in range(5)])
CF = {'time': 200, 'cover': END, 'steps': 200000000, 'quiet-fmt': 1}
CFT = dict(CF, time=500, tier='thorough')
PROPS['M04'] = dict(
    bounds='curves of 1 to 3 given rates, each any multiple of 2^-14 from -1/16 to 5/16, seen from several evaluation days: rates and factors at all 29 tenors, forward rates over six intervals; factors of one curve at every single-precision time up to 5 (thorough: 90) and between such a time and fixed ones; dates from three days before the evaluation date on at two hours; two bumps (thorough: three) of any whole size with ends on and between cached times, and every interval of quarter years up to ten years',
    outside='curves given by more nodes; bumps of non-whole sizes (their sums are rounded); the accuracy of exp and log (taken as functions of their argument)',
    jobs=[J('ql', 'zc_values', n, d, **CF) for n, d in [(1, 5), (2, 5), (3, 5), (2, 59), (3, 364)]] + [J('ql', 'zc_query', 0, 0, 5, **CF), J('ql', 'zc_query', 1, 0, 1, 1, **CF)]
       + [J('ql', 'zc_instant', d, **CF) for d in (0, 59)] + [J('ql', 'zc_dates', d, 1, **dict(CF, cover=['before', 'after'])) for d in (60,)]
       + [J('ql', 'zc_bump', n, b, **CF) for n, b in [(1, 1), (2, 2)]] + [J('ql', 'zc_bump_any', 0, **CF)]
       + [J('ql', 'zc_bump', 3, 3, **CFT), J('ql', 'zc_query', 0, 59, 90, **CFT)] + [J('ql', 'zc_query', 1, 0, 2, k, **CFT) for k in (2, 3)] + [J('ql', 'zc_dates', d, 4, **dict(CFT, cover=['before', 'after'])) for d in (2, 363)] + [J('ql', 'zc_values', n, d, **CFT) for n in (1, 2, 3) for d in range(20, 366, 61)])
PROPS['N01'] = dict(
    bounds='1 to 4 coupons, any fixed rate on a grid of 2^-12, coupon amounts given or not, redemption on a day of its own, on that of a coupon, stripped; exchanged amounts of any whole size on days of their own or shared with coupons; seen on every day of a 141-day window at two hours',
    outside='other day counters and conventions than Actual/365 unadjusted (see D04, D01, D05); issue names',
    jobs=[J('ql', 'cf_bond', n, m, s, e, **CF) for n, m, s, e in [(1, 0, 0, 41), (2, 0, 0, 131), (3, 2, 0, 103), (3, 7, 1, 103), (4, 5, 0, 131), (4, 0, 0, 103)]]
       + [J('ql', 'cf_swap', n, x, e, **CF) for n, x, e in [(2, 0, 71), (3, 1, 103), (3, 1, 110), (1, 1, 41)]]
       + [J('ql', 'cf_bond', 4, m, s, 131, **CFT) for m in range(16) for s in (0, 1)] + [J('ql', 'cf_swap', 4, 1, e, **CFT) for e in (103, 131, 135)])
PROPS['N02'] = dict(
    bounds='1 to 2 (thorough: 4) floating coupons of bonds, swaps and swaps exchanging amounts, any spread and known fixings on a grid of 2^-12, none, some or all fixings known, seen on every day of a 141-day window at two hours; overnight coupons of 2 to 7 days across a weekend, any number of them known, seen on every day from the first on',
    outside='fixings missing before others known; overnight periods that begin after the pricing date (by design an average of two rates); compounding tenors other than a day',
    jobs=[J('ql', 'cf_float', n, k, f, **CF) for n, k, f in [(1, 0, 0), (2, 0, 1), (2, 1, 1), (2, 2, 2), (1, 2, 0)]] + [J('ql', 'cf_overnight', *p, **CF) for p in [(2, 1), (3, 1), (4, 2), (7, 3), (5, 0)]]
       + [J('ql', 'cf_float', n, k, f, **CFT) for n in (3, 4) for k in (0, 1, 2) for f in (0, 2)] + [J('ql', 'cf_overnight', 12, k, **CFT) for k in (3, 9)])
PROPS['V01'] = dict(
    bounds='bonds of 1 to 4 coupons with payments of any whole amount under a flat zero curve and given amounts under a curve of several rates, with and without a pricing date of their own; swaps likewise, on one currency or two; equity futures and currency futures for every spot and trade price on a grid of 1/16, with none to three dividends; several valuation days, also on payment days',
    outside='options (G01); amounts and rates both symbolic at once; tolerance 2e-6 where rates are not zero',
    jobs=[J('ql', 'pr_bond', *p, **CF) for p in [(2, 50, 0, 0), (3, 71, 0, 0), (3, 50, 80, 0), (4, 50, 0, 1), (4, 103, 110, 1), (4, 131, 0, 1)]]
       + [J('ql', 'pr_swap', *p, **CF) for p in [(2, 50, 0, 1), (2, 5, 0, 1), (3, 71, 0, 1), (3, 50, 1, 1), (3, 50, 1, 0), (4, 5, 1, 1)]] + [J('ql', 'pr_futures', *p, **CF) for p in [(70, 3), (60, 2), (40, 1), (100, 0)]]
       + [J('ql', 'pr_bond', n, d, 0, r, **CFT) for n in (1, 4) for d in (5, 10, 41, 90, 130) for r in (0, 1)] + [J('ql', 'pr_swap', n, d, r, x, **CFT) for n in (2, 4) for d in (10, 41, 90) for r in (0, 1) for x in (0, 1)] + [J('ql', 'pr_futures', m, k, **CFT) for m in (21, 59, 60, 300) for k in (1, 2, 3)])
