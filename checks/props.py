"""The properties: source of properties.jsonl (see tools/gen.py)."""
P = []
NA = {}
TE, QL = 'trading-engine/src/', 'quantlib/src/'
def prop(id, title, statement, over, forall, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), forall=forall, why=why, files=files, mech=mech))
    if na: NA[id] = na
TODO = 'check not built yet'

prop('O01', 'Order book sides stay internally consistent',
  'After any history of order operations, every price level of the book shows exactly the sum of its resting orders, each side total is the sum over its levels, and no empty level or empty order remains. Looking an order up by its id finds exactly the resting orders, at the price where they rest, and the best price of each side is the best price among the resting orders (or the documented empty marker).',
  'histories inputs', 'every sequence of limit, market, cancel, modify, quantity-change, anonymous-removal and price-change operations with every price and quantity',
  'The tests replay a few dozen hand-written operations with fixed prices; the redundancy between levels, totals, index and best price can drift after any other order of operations.',
  [TE+'orderbook/half_book.rs', TE+'orderbook/level.rs', TE+'orderbook/mod.rs'],
  [('add/remove/reduce/trade on a half book', TE+'orderbook/half_book.rs'), ('level totals', TE+'orderbook/level.rs'), ('side dispatch', TE+'orderbook/mod.rs')])
prop('O02', 'Incoming orders match by price-time priority and conserve quantity',
  'A limit or market order trades against the opposite side from the best price outwards, never beyond its limit, and within a price in the order of arrival. The reported fills give each price and traded quantity, and fills plus unfilled remainder equal the order quantity; a limit remainder rests at its limit price, a market remainder does not rest.',
  'histories inputs', 'every history of limit and market orders within the bounds, every price and quantity',
  'Tests use a handful of fixed books; partial fills, exact exhaustion, several levels and ties between orders combine in far more ways.',
  [TE+'orderbook/half_book.rs', TE+'orderbook/level.rs', TE+'orderbook/mod.rs'],
  [('process_limit_order / process_market_order', TE+'orderbook/mod.rs'), ('trade loops', TE+'orderbook/half_book.rs'), ('level trade', TE+'orderbook/level.rs')])
prop('O03', 'Cancel, modify and quantity changes touch exactly the named order',
  'Cancelling or changing an order acts on exactly that resting order and reports whether it was resting; an unknown id changes nothing. A quantity-only change keeps the order in its queue position (zero removes it), a price change re-enters it as a new order that may trade and loses priority, and an anonymous removal takes quantity from the back of the named price and returns what it could not take.',
  'histories inputs', 'every history of limit orders and edits within the bounds, every target id (known or not), price and quantity',
  'Tests check one or two edits on one fixed book; position in the queue, last order of a level, equal price and crossing re-entry are separate cases.',
  [TE+'orderbook/half_book.rs', TE+'orderbook/level.rs', TE+'orderbook/mod.rs'],
  [('cancel_order / modify_order / change_quantity', TE+'orderbook/mod.rs'), ('reduce_quantity, change_price', TE+'orderbook/half_book.rs')])
prop('O04', 'The book is never crossed',
  'After every order operation accepted by the order book, the best bid price is strictly below the best ask price whenever both sides have orders.',
  'histories inputs', 'every history of book operations within the bounds, every price and quantity',
  'A crossed book appears only after particular combinations of a partial fill, an edit and a re-entry, which the fixed test histories do not contain.',
  [TE+'orderbook/mod.rs', TE+'orderbook/half_book.rs'],
  [('modify re-enters through the matching path', TE+'orderbook/mod.rs'), ('best price maintenance', TE+'orderbook/half_book.rs')])
prop('O05', 'Snapshots set the displayed book and decompose into equivalent orders',
  'Applying a level snapshot makes the book show exactly the levels of the snapshot, whatever it showed before, and a snapshot for another instrument is refused without effect. The orders a snapshot decomposes into, replayed on the previous book, give the same displayed levels; comparing two sides by level succeeds exactly when they show the same levels.',
  'histories inputs', 'every sequence of up to three snapshots with any distinct prices and positive quantities, on both sides',
  'Tests replay recorded market data where levels move little; appearing, vanishing and shrinking levels in one step are rarely combined.',
  [TE+'orderbook/half_book.rs', TE+'orderbook/mod.rs'],
  [('update_l2_snapshot, decomposed_orders_with_update', TE+'orderbook/half_book.rs'), ('update_from_quote_snapshot / trade_quote', TE+'orderbook/mod.rs')])
prop('P01', 'Fixed-width digit parsers return the decimal value',
  'Parsing a fixed-width ASCII digit field of any supported length returns exactly the decimal value of the digits, and the time-of-day parser returns exactly the nanoseconds of HHMMSSuuuuuu. Bytes outside the field never influence the result.',
  'inputs', 'every digit string of every supported width and every content of the neighbouring bytes',
  'Tests try about one literal per width; the bit-parallel arithmetic has one carry path per digit position and reads whole words around the field.',
  [TE+'utils/numeric_converter.rs'], [('parse_under8/16/32, parse_hhmmss…', TE+'utils/numeric_converter.rs')])
prop('P02', 'Exchange price and quantity fields convert exactly',
  'A price, yield or quantity field laid out as described by its field format (sign, integer digits, decimal point, decimals, unused leading bytes) converts to exactly the signed scaled integer it denotes, and the inverse scaling to floating point matches. A format whose parts do not add up to its total length is refused.',
  'inputs configurations', 'every well-formed field content for each of the exchange field formats, with every content of the unused and surrounding bytes',
  'Tests decode a few sample prices; signs, leading blanks, dropped decimal points and maximum widths are not crossed with each other.',
  [TE+'utils/numeric_converter.rs', TE+'data/krx/krx_converter.rs'], [('IntegerConverter', TE+'utils/numeric_converter.rs'), ('per-product converters', TE+'data/krx/krx_converter.rs')])
prop('P03', 'Exchange time stamps decode exactly and roll over at midnight',
  'A time-of-day field decodes to the instant on the current date, and dates advance by one day exactly when the time of day falls back by the documented wrap threshold. Times decoded from a chronological sequence of messages are therefore chronological.',
  'histories inputs', 'every pair of consecutive time-of-day fields and every date base',
  'Tests decode one or two fixed times.',
  [TE+'utils/numeric_converter.rs', TE+'types/timestamp.rs'], [('TimeStampConverter', TE+'utils/numeric_converter.rs')])
prop('P04', 'Derivative quote messages decode field by field',
  'Decoding a well-formed derivative quote message yields, for every level and both sides, exactly the price, quantity and order count in that level’s fields, and the instrument, venue and time of the message. The streaming form and the one-shot form of the decoder agree, whatever the previous content of the reused buffer.',
  'inputs histories', 'every digit content of every field of a message, every previous buffer content',
  'Tests decode one or two captured messages in which many levels carry the same digits; a swapped offset between fields of equal value is invisible.',
  [TE+'data/krx/derivative_quote.rs', TE+'data/krx/unroll_macro.rs'], [('IFMSRPD0034/0035', TE+'data/krx/derivative_quote.rs')])
prop('P05', 'Derivative trade and trade-quote messages decode field by field',
  'Decoding a well-formed trade or combined trade and quote message yields exactly the traded price, quantity, direction and session prices of its fields and, for the combined message, every quoted level of both sides. The streaming and one-shot forms agree.',
  'inputs histories', 'every digit content of every field of a message, every previous buffer content',
  'Tests decode one or two captured messages.',
  [TE+'data/krx/derivative_trade.rs', TE+'data/krx/unroll_macro.rs'], [('IFMSRPD0036/0037/0038', TE+'data/krx/derivative_trade.rs')])
prop('P06', 'Stock quote messages decode field by field',
  'Decoding a well-formed stock quote message yields, for every level and both sides, exactly the price, quantity and market-maker quantity in that level’s fields, and the instrument and time of the message; streaming and one-shot forms agree.',
  'inputs histories', 'every digit content of every field of a message, every previous buffer content',
  'Tests decode one captured message.',
  [TE+'data/krx/stock_quote.rs', TE+'data/krx/unroll_macro.rs'], [('IFMSRPD0002/0003', TE+'data/krx/stock_quote.rs')])
prop('P07', 'Malformed exchange frames are refused without crashing',
  'A frame of the wrong length or without the end marker is refused with an error by every decoder, for any bytes whatsoever; refusing it neither panics nor reads outside the frame nor changes the output buffer’s prices.',
  'inputs fault_sequences', 'every frame of the lengths explored, with arbitrary bytes (including ones that are not text)',
  'Tests feed one truncated text frame; arbitrary bytes reach the error formatting paths.',
  [TE+'data/checker.rs', TE+'data/krx/derivative_quote.rs', TE+'data/krx/derivative_trade.rs', TE+'data/krx/stock_quote.rs'], [('Checker', TE+'data/checker.rs')])
prop('I01', 'Instrument identifiers are unambiguous and round-trip',
  'An identifier accepted from bytes reads back as the same bytes, two identifiers are equal (and hash equally) exactly when their bytes are, and malformed ones (wrong length, blanks, non-ASCII) are refused. Interned instrument ids are equal exactly when symbol and venue are.',
  'inputs', 'every byte string of the relevant lengths',
  'Tests use a few literals.',
  [TE+'types/id/isin_code.rs', TE+'types/id/ticker.rs', TE+'types/id/mod.rs'], [('IsinCode, Ticker, InstId', TE+'types/id/')])
prop('C01', 'Shared counters never hand out the same number twice',
  'Counters shared between threads return distinct, consecutive values to concurrent callers, and a bounded counter refuses exactly the calls beyond its end instead of leaving its bounds.',
  'schedules inputs', 'every interleaving of two or three threads with a few calls each',
  'Tests run threads once and cannot choose the interleaving.',
  [TE+'utils/counter.rs'], [('atomic counters', TE+'utils/counter.rs')])
prop('C02', 'Time-stamp arithmetic and calendar split are exact',
  'Splitting a nanosecond time stamp into time-of-day components, into the date and time text of any whole-hour offset, or into the midnight of its day agrees with the civil calendar; the difference between two stamps has the right size in every unit.',
  'inputs', 'every nanosecond time stamp of the years explored (from one day after 1970-01-01), every whole-hour offset explored',
  'Tests use a few instants.',
  [TE+'utils/timer.rs', TE+'types/timestamp.rs'], [('convert_unix_nano…', TE+'utils/timer.rs')])
prop('S01', 'The data queue gives every worker every item once, in order',
  'The writer of the data queue gets the slot only when every registered worker has finished the last published item; each registered worker is handed each published item, complete, until it reports it done and not again, and nobody else is. Worker ids are distinct and fit the status word; an empty queue hands out nothing and can be dropped.',
  'histories schedules', 'every history of publish, read and done within the bounds, every interleaving of one writer with one or two workers',
  'Tests publish a few items in one order on one thread.',
  [TE+'spinqueue.rs'], [('DataSpinQueue', TE+'spinqueue.rs')])
prop('F01', 'Order-book features compute their defining formulas',
  'The quantities derived from quotes or trades (best, mid and volume-weighted price, order-flow imbalance and its logarithmic form per level, average trade price, exponentially weighted mean and sum over the time since the last observation) equal their defining formulas where they are defined, and report absence (or zero for a logarithm of nothing), not a wrong number, where they are not. An update with too few levels is refused.',
  'histories inputs', 'every small book and update sequence',
  'Tests check one example value per feature.',
  [TE+'feature/tick.rs', TE+'feature/weighted_valuation.rs', TE+'feature/weight.rs'], [('features', TE+'feature/')])

prop('D01', 'Business-day adjustment lands on the right business day',
  'Adjusting a date under a convention returns the date itself when it is a business day; otherwise the nearest business day after (Following) or before (Preceding), where the Modified variants turn back exactly when the month would change. The time of day and offset are kept.',
  'inputs configurations', 'every date in the years explored, every holiday set, every convention and offset',
  'Tests check a few dates per calendar.',
  [QL+'time/calendar_trait.rs', QL+'time/conventions.rs'], [('adjust_*', QL+'time/calendar_trait.rs')])
prop('D02', 'Holiday sets combine with the right precedence',
  'A date is a holiday if it is a weekend; otherwise an explicitly removed holiday is not one and an explicitly added one is; otherwise the market rules decide. A joint calendar’s holidays are exactly the union of its members’, and every calendar judges an instant by the date in its own time zone.',
  'inputs configurations histories', 'every date, time of day and offset, every set of added and removed dates, every combination of member calendars',
  'Tests use UTC midnights and one or two calendars.',
  [QL+'time/calendar_trait.rs', QL+'time/jointcalendar.rs', QL+'time/calendars/southkorea.rs', QL+'time/calendars/unitedstates.rs'], [('is_holiday', QL+'time/calendar_trait.rs'), ('union', QL+'time/jointcalendar.rs')])
prop('D03', 'Tenor arithmetic on dates follows the civil calendar',
  'Adding or subtracting a tenor of years, months, weeks, days, hours or seconds moves by exactly that much; month and year steps keep the day of month, or the last day when it does not exist, and never land in another month. Time of day and offset are preserved.',
  'inputs', 'every start date in the years explored and every tenor count within the bounds',
  'Tests check about ten literal tenors.',
  [QL+'utils/string_arithmetic.rs'], [('add_period, sub_period', QL+'utils/string_arithmetic.rs')])
prop('D04', 'Day-count fractions follow their conventions',
  'For every pair of dates the year fraction equals the defining formula of its day-count convention to single precision; it is zero for equal dates, non-decreasing in the end date and refused when the dates are reversed. The exact time difference in years adds up the part of every calendar year over that year’s length.',
  'inputs configurations', 'every pair of dates in the years explored, for each convention',
  'Tests check a few date pairs per convention.',
  [QL+'time/calendar_trait.rs', QL+'time/conventions.rs', QL+'time/jointcalendar.rs'], [('year_fraction, get_time_difference', QL+'time/calendar_trait.rs')])
prop('D05', 'Coupon schedules partition the period without gaps',
  'A generated schedule covers the interval from effective date to maturity with contiguous periods in increasing order: the first starts on the effective date, each inner boundary is a whole number of tenor steps from the effective date (or back from maturity) adjusted by the convention, the last ends at maturity; a schedule whose periods would not increase is refused. Each fixing date is the given number of days before the start moved back to a business day, and each payment the given number of days after the end adjusted by the convention, the last one at maturity.',
  'inputs configurations', 'every effective date and length within the bounds, each frequency, stub choice and convention',
  'Tests check one or two schedules.',
  [QL+'instruments/schedule.rs', QL+'time/conventions.rs'], [('build_schedule', QL+'instruments/schedule.rs')])
prop('D06', 'Market holiday rules match the published rules for every year',
  'For each supported market and every year covered, a weekday is a holiday exactly when the market’s rules say so: fixed dates with the market’s own weekend substitutions, n-th-weekday holidays from the year each was introduced, Good Friday by the western Easter, the Korean lunar holidays with their neighbouring days, the last weekday of the year on the Korean exchange, and the special closings and substitute holidays the calendar lists.',
  'inputs', 'every date of every year covered by the tables',
  'Tests list the holidays of a few years.',
  [QL+'time/calendars/southkorea.rs', QL+'time/calendars/unitedstates.rs', QL+'time/constants.rs', QL+'time/holiday.rs'], [('is_base_holiday rules', QL+'time/calendars/')])
prop('M01', 'Bracketing search returns the enclosing interval',
  'For any non-decreasing grid and any value, the search returns the index of the last grid point not above the value (any one of several equal points), or the first point when the value lies below the grid; on a strictly increasing grid, searching a sorted list of values at once returns the same as searching them one by one, and the slice and array forms agree.',
  'inputs', 'every sorted grid and every sorted query list up to the sizes explored, including repeated values and values outside the grid',
  'Tests use one grid.',
  [QL+'utils/find_index.rs', QL+'utils/find_index_ndarray.rs'], [('binary_search_index and vectorised forms', QL+'utils/find_index.rs')])
prop('M02', 'Interpolators reproduce nodes and stay between them',
  'Every interpolator returns the node value at each node (up to rounding at most), the first and the last included; in between, linear interpolation lies on the line joining the two neighbouring nodes, bilinear on the line joining the two neighbouring rows, stepwise holds the value of the node before and the constant its value; outside the grid each follows its extrapolation setting or refuses; evaluating a sorted list at once equals evaluating one by one, and unsorted or mismatched inputs are refused.',
  'inputs configurations', 'every increasing grid, node values and query within the bounds',
  'Tests evaluate a few points on one grid.',
  [QL+'math/interpolators/linear_interpolator.rs', QL+'math/interpolators/stepwise_interpolatior.rs', QL+'math/interpolators/bilinear_interpolator.rs'], [('interpolators', QL+'math/interpolators/')])
prop('M03', 'Distributing a risk value over curve nodes conserves it',
  'Splitting a value observed at one tenor over the nodes of a curve gives nonzero parts only to the two neighbouring nodes, in proportion to distance, and the parts add up to the value; outside the nodes everything goes to the end node.',
  'inputs', 'every increasing node grid up to the size explored, every observation time and value',
  'Tests use one grid and a few times.',
  [QL+'utils/distribute_value.rs'], [('distribute_value_on_vector', QL+'utils/distribute_value.rs')])
prop('M05', 'Advancing the evaluation date deducts exactly the passed dividends',
  'When the evaluation date moves, the market price changes by exactly the dividends whose ex-dates were passed (an ex-date at the same instant as the evaluation date counts as passed), moving back restores them, and the remaining dividend curve contains exactly the dividends still ahead. Bumping the dividends of a date interval changes exactly those and does not bring back the passed ones.',
  'histories inputs', 'every order of evaluation dates around every set of ex-dates within the bounds',
  'Tests move the date once.',
  [QL+'parameters/market_price.rs', QL+'parameters/discrete_ratio_dividend.rs', QL+'evaluation_date.rs'], [('update observers', QL+'parameters/')])
prop('E01', 'Instruments are distributed to engines completely and compatibly',
  'Grouping instruments for calculation puts every instrument in exactly one group, and every group contains only instruments that the group rule allows together.',
  'inputs configurations', 'every small set of instruments',
  'Tests distribute one fixed portfolio.',
  [QL+'pricing_engines/engine_generator.rs'], [('distribute_instruments', QL+'pricing_engines/engine_generator.rs')])
prop('E02', 'Calculation settings are validated and kept',
  'Every calculation setting that is given is the one used and changes no other, settings not given have the documented defaults, and settings that make no sense (a bump that is not a positive number, a shift of the evaluation date that is not positive, delta without gamma bumps of a usable size) are refused when a configuration is built from them.',
  'inputs configurations', 'every combination and order of settings',
  'Tests set a few.',
  [QL+'pricing_engines/calculation_configuration.rs'], [('builders and validation', QL+'pricing_engines/calculation_configuration.rs')])
prop('E03', 'Portfolio queries return exactly the matching instruments',
  'Selecting instruments of a portfolio by type, currency, underlying, maturity (by a date, after a date) or curve returns exactly those that match, each once and in portfolio order, with the excluded types left out; the lists of types, currencies, underlyings, currency pairs and curves needed hold everything an instrument of the portfolio needs, each once, and nothing else; the shortest and longest maturities are attained.',
  'inputs configurations', 'every small portfolio and every query',
  'Tests query one or two fixed portfolios.',
  [QL+'instrument.rs', QL+'pricing_engines/match_parameter.rs', QL+'instruments/cash.rs', QL+'instruments/plain_swap.rs', QL+'instruments/vanilla_option.rs'], [('Instruments queries', QL+'instrument.rs')])
prop('M04', 'Zero curves: factors, forward rates and bumps are consistent',
  'A zero curve carries, at every standard tenor, the rate interpolated from the given ones and its discount factor exp(-rate*time); between these times factors lie on the joining line, never rising; the factor between two times is the quotient, forward rates follow from it and stay finite even over empty intervals; reversed times and dates before the evaluation date are refused; a bump changes exactly the rates after its start and up to its end, and the opposite bump restores the curve.',
  'inputs configurations', 'every small curve, time, date and bump',
  'Tests evaluate a few curves at a few times.',
  [QL+'parameters/zero_curve.rs', QL+'math/interpolators/', QL+'time/calendar_trait.rs'], [('ZeroCurve', QL+'parameters/zero_curve.rs')])
prop('N01', 'Bonds and swaps list exactly the payments still to come',
  'The cash flows of a bond or swap on a date hold every coupon, redemption and exchanged amount whose payment day is not before that date, on its payment day, and nothing else; a coupon is its given amount, or rate times year fraction (times the notional amount of its leg); payments on one day add up.',
  'inputs configurations', 'every pricing date, rate and amount',
  'Tests list the flows of one or two instruments on one day.',
  [QL+'instruments/bond.rs', QL+'instruments/plain_swap.rs', QL+'instruments/schedule.rs'], [('get_cashflows, get_fixed_cashflows', QL+'instruments/')])
prop('N02', 'Floating coupons use known fixings and forward rates',
  'A floating coupon pays (rate + spread) times its year fraction (times the amount of its leg), where the rate is the known fixing if its fixing date is past, the current rate if that fixing is missing, and otherwise the forward rate of the index tenor from the fixing date; an overnight coupon already begun compounds each day at the fixing of that or the last business day before.',
  'inputs configurations', 'every pricing date, set of fixings and spread',
  'Tests compute one coupon of each kind.',
  [QL+'parameters/rate_index.rs', QL+'instruments/plain_swap.rs', QL+'instruments/bond.rs'], [('RateIndex::get_coupon_amount', QL+'parameters/rate_index.rs')])
prop('V01', 'Linear products are worth their discounted payments',
  'A bond is worth its payments after the valuation (or its pricing) date, each times its discount factor, over the factor of its pricing date; a swap the sum of its legs, each with its curve, at the exchange rate; a future the spot times the quotient of the factors less the dividends until maturity; the value reported, the listed coming payments (summed by day) and the currency exposures agree with it.',
  'inputs configurations', 'every amount, spot and valuation day',
  'Tests price one instrument of each kind.',
  [QL+'pricing_engines/bond_pricer.rs', QL+'pricing_engines/plain_swap_pricer.rs', QL+'pricing_engines/futures_pricer.rs', QL+'pricing_engines/fx_futures_pricer.rs'], [('npv, npv_result, fx_exposure', QL+'pricing_engines/')])
prop('K01', 'Currency and FX-pair codes round-trip',
  'A currency code printed (as text or as JSON) and parsed back is the same currency and anything else is refused; an FX pair’s reciprocal swaps its currencies and applied twice gives the pair back; the printed pair is the two codes in order, and read back, from text or JSON, is the same pair.',
  'inputs', 'every currency, pair and code string',
  'Tests check a few pairs.',
  [QL+'currency.rs', QL+'utils/make_fx.rs'], [('Currency, FxCode', QL+'currency.rs')])
prop('G01', 'Option values equal their model and Greeks their finite differences',
  'For every option the engine’s value equals the model’s closed-form or grid value under the given market, and for every instrument each sensitivity equals the corresponding bumped revaluation with all bumped state restored afterwards.',
  'inputs configurations', 'every portfolio, market and setting',
  'Tests price a fixed portfolio.',
  [QL+'pricing_engines/engine.rs', QL+'pricing_engines/'], [('engine and pricers', QL+'pricing_engines/')],
  'The value is a composition of f32 exp/log/normal-cdf library calls and hash-map driven revaluation over Rc/RefCell graphs; no SMT theory decides identities over these transcendental functions, and treating them as uninterpreted leaves only the plumbing, which depends on ndarray/serde code too large to encode per path within the time of a check.')
prop('L01', 'Every accepted log record is written once, in order',
  'Every log record at or above the configured level is written exactly once, in the order in which each thread issued it, and all records issued before a flush are on disk when it returns.',
  'schedules crash_points', 'every interleaving of logging threads, the writer thread and shutdown',
  'Tests log from a few threads once.',
  [TE+'logger.rs'], [('channel and writer thread', TE+'logger.rs')],
  'The path goes through crossbeam/std channels, OS threads, clocks and buffered file I/O; parking, futex and file calls have no body in the IR, so the schedule would be explored over a hand-written model instead of the real code.')
