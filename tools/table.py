"""The property table: `python3 tools/gen.py` writes properties.jsonl, MANIFEST.json
and the property sections of DESIGN.md from it."""

OB = ["trading-engine/src/orderbook/level.rs", "trading-engine/src/orderbook/half_book.rs", "trading-engine/src/orderbook/mod.rs"]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique="", level="proof", note="", design="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, design=design, na=na, observe=observe))


GVF = "gated value-flow analysis of the MIR (paths merged into guarded normal-form terms, helpers inlined)"

prop("T01", "Order-book totals always equal the resting orders",
     "After any sequence of order-book operations the total quantity of each price level equals the sum of its resting orders, and the total of each side equals the sum of its levels. Quantity leaves the book only by being traded, cancelled, reduced or replaced, and exactly by that amount.",
     ["histories", "inputs"], "every public operation that can change a level, a side or the book, from any book in which the totals are right, with any order",
     "the tests replay a handful of short order sequences; a wrong total needs a particular mix of partial fills, several levels and removals and is silent until someone reads the total",
     OB, [("resting orders of a level and its total", "level.rs Level"), ("total of a side, adjusted by every mutator", "half_book.rs HalfBook")],
     technique="ghost-delta accounting over a gated value-flow analysis of MIR",
     note="Every mutator reachable from the public book API is analysed with any number of loop passes; the totals are compared as linear normal forms under guards. Trusted: rustc's MIR, the models of std collections in sa/models.py, machine integers taken as mathematical (overflow is not decided).",
     design="For every function that can write a level or a side (found by following &mut self of the book types, not listed by hand) the analysis records each store to a level's total, a side's total and each change of a resting quantity, with its path guard. Per function and loop pass, Δ(total) − Δ(sum of resting quantities) has to be the zero polynomial under every feasible guard; loops are handled by induction (the pass delta, with loop variables as symbols). Induction hypothesis: the invariant holds on entry. A constructor must establish it.")

prop("T02", "The order index names exactly the resting orders",
     "After any sequence of order-book operations an order id can be looked up if and only if that order is resting in the book, at the price under which it is filed. Orders that were filled, cancelled, removed or swept away by a snapshot are gone from the lookup.",
     ["histories", "inputs"], "every public operation of a level, a side or the book, from any consistent book",
     "a stale or missing id shows up only when that id is used again later; the tests look up a few ids after simple trades",
     OB, [("index of order id to price", "half_book.rs HalfBook::cache"), ("ids returned by a level's trade are purged", "half_book.rs cleanup_after_trade")],
     technique="paired-update (typestate) analysis over gated value flow",
     note="Every addition/removal of a resting order is matched with an index insertion/removal of the same id under an implied guard, including ids passed through lists between loops. A caller adding an order whose id is already resting is outside the claim (ids are assumed fresh).",
     design="Order additions and removals, index insertions and removals and level removals are extracted as guarded events. Each resting-order removal has to be covered, on every feasible path, by an index removal of the same id (directly, or through a list of ids whose inflow covers the removal and which is drained completely afterwards) and conversely; whole-level and whole-book removals have to be preceded by removing all ids of the level.")

prop("T03", "Best price is the extreme price of the levels that hold orders",
     "After every order-book operation the best price of a side is the lowest ask or highest bid among its price levels, and the empty sentinel when the side has none. A price level that lost its last order is removed from the book.",
     ["histories", "inputs"], "every public operation of a side or the book that changes the set of price levels",
     "the best price goes stale only when the particular level that was best disappears through one of many operations; tests sample two or three of them",
     OB, [("best price refreshed after removals", "half_book.rs reinitialize_best_price"), ("best price merged on insertion", "half_book.rs update_best_price")],
     technique="post-dominance of refresh over key-set changes, on gated value flow",
     note="Decides that each change of the level set is followed on every path by a store of the right extreme (term-level: first/last key of the map as it is then, min/max merge on insertion). Market-order and limit-order sweeps drop emptied levels through an id/price list that is proved to be drained.",
     design="Key-set changes of the level map are events (insert of an absent key, removal of a present key, clear). Each must be covered by later stores whose value is, as a normal-form term, the first key (ask) / last key (bid) of the map at that point or the sentinel under the empty guard; insertions may instead be merged with min/max; removal of a price that is not the best needs nothing. Any other value stored as best price is a violation.")


prop("T04", "Matching follows price-time priority, limits and records every trade",
     "An incoming order trades against the best-priced level first and the oldest order of a level first, never at a price beyond its limit, and never stops while both quantity to fill and tradable orders are left. The quantity taken from the book equals the requested quantity minus the returned remainder, and the trade record lists each level's price with exactly the quantity traded there, in trading order.",
     ["inputs", "histories"], "every limit or market order matched against any side of the book, with any number of levels and orders",
     "the tests match a few orders against two or three levels; priority or record errors need a specific shape of the queue (partial fill then a younger order, a sweep ending exactly at a level boundary)",
     OB, [("matching loops over the level map", "half_book.rs trade_limit_order / trade_market_order"), ("queue consumption within a level", "level.rs Level::trade")],
     technique="gated value-flow analysis of the matching loops against priority, limit and completeness rules",
     note="All matching functions of a side are analysed with loops by induction; queue positions, walk direction and limit guards are read off terms. Trusted: models of BTreeMap iteration order and VecDeque in sa/models.py.",
     design="For every function that returns a trade record: each taking of resting quantity has to happen in a walk over the whole level map, in ascending (ask) or descending (bid) key order, from the front of the level's queue, under a guard implying the price is within the limit; every pass of the walk must end with nothing left to fill, the level used up, or the next price beyond the limit; quantity taken = requested − returned remainder (conservation fold over the loops); each pass appends (level price, quantity traded there). In all mutators orders enter at the back of a queue.")

prop("T05", "Each request acts on its own side, order, price and quantity",
     "A new order rests, or its untraded remainder does, under its own id, price and side with exactly its untraded quantity, and trades only with the opposite side; a market order never rests. A cancel, amendment or removal acts on exactly the order (or price level) it names with the quantity it states (an amendment at the same price only sets the quantity, one to another price re-enters the order there as a new order) and reports whether it was found, a removal what it could not remove. A snapshot is taken only by the book of its own instrument, its ask levels to the asks and its bid levels to the bids, after which the book shows exactly its levels and quantities.",
     ["histories", "inputs"], "every request of every kind, on either side, to any book",
     "the tests send a few requests of each kind; a wrong side, order or quantity under one kind of request on one shape of queue is not sampled",
     OB, [("dispatch of requests", "orderbook/mod.rs OrderBook::process_*, cancel_order, modify_order, remove_order, change_*"), ("action on a side", "half_book.rs cancel_order, change_quantity, change_price, remove_order, update_l2_snapshot"), ("action on a level", "level.rs")],
     technique="normal-form comparison of state transformers and value-flow effect rules (MIR)",
     note="How a side matches an order is T04's matter and is a primitive of the book-level comparison here. An amendment is taken to name an order of the side that holds it. The tree's oddities that are not claimed: the book's time is never updated, a snapshot level is represented by one order, a second order under a resting id displaces the first in the lookup.",
     design="Each request method of the book is executed abstractly with the sides' operations as primitives; the state of both sides afterwards and the answer have to equal, as guarded normal forms, the specification's (which side, which order with which fields, what is done with the remainder). The sides' operations are analysed with the levels' operations inlined: for each kind of request the set of taken and placed orders, the quantity stores and the answers have to be those of the order or level named, on every feasible path, and a removal loop has to take as much as asked and available, with every pass making progress.")

prop("T06", "Views and derived orders show exactly the book",
     "A level view lists every price level once, in price order, with its price, total quantity and number of orders; an order looked up by its id comes with its own quantity, price and side, and totals, counts and quantities at a price are those of the book. The orders derived from a level snapshot are exactly the difference between book and snapshot (a new order or a removal of the difference per listed level, removal of the whole quantity for each level no longer listed, each new order under an id not used before) and are the orders applied, each once, those of the asks first, stamped with the book's instrument and time.",
     ["histories", "inputs"], "every book and every snapshot",
     "the test derives orders one change at a time; several new or vanished levels at once, an emptied side or a long queue is not sampled",
     OB, [("views", "half_book.rs to_level_snapshot, get_order, aggregate_quantity*, level.rs"), ("derivation", "half_book.rs decomposed_orders_with_update, mod.rs decomposed_orders_with_update")],
     technique="normal-form comparison of gated value flow (MIR) with a specification term",
     note="That every side's state is consistent (T01 to T03) is assumed. Text views and the comparison of two books are not claimed. Snapshots are taken to list a price at most once.",
     design="The value each view returns is brought to normal form (one table entry per level, in the map's order) and compared with its specification. The derived list is a concatenation of two guarded sequences over the snapshot and over the levels; both, the virtual ids used during each pass and the counter left behind, and the sequence of orders applied are compared with specification terms.")

QE = "quantlib/src/pricing_engines/"
QP = "quantlib/src/pricing_engines/"
NF = "normal-form comparison of gated value flow (MIR) with a specification term"

prop("Q07", "Futures and option values follow no-arbitrage pricing",
     "An equity futures is worth spot times borrowing over collateral discount factor times the dividend deduction ratio at its maturity, an FX futures is worth spot times underlying-currency over futures-currency discount factor. A European option is worth Black's formula on that same forward with the volatility, discount curve and quanto drift it was given, a cross-currency option without quanto data is refused, and the detailed result carries the same value as the plain one.",
     ["inputs"], "every market state, strike, maturity, currency pair and option type",
     "tests pin one price per pricer; a term that is zero or one in that sample (dividend ratio, quanto drift, put branch, maturity other than one year) can be wrong unnoticed",
     [QP + "futures_pricer.rs", QP + "fx_futures_pricer.rs", QP + "option_analytic_pricer.rs"],
     [("forward", "futures_pricer.rs fair_forward"), ("Black's formula and quanto drift", "option_analytic_pricer.rs npv"), ("FX forward", "fx_futures_pricer.rs npv")],
     technique=NF,
     note="Discount factors, dividend ratio, volatility look-ups and the normal distribution are primitives of the formula (their own behaviour is covered elsewhere or not at all); real arithmetic is taken as exact. The option's payoff uses the unadjusted forward and the drift enters through d1 as coded: the specification follows the code there.",
     design="npv and npv_result of the three pricers are executed abstractly over all paths; the returned value is a guarded rational normal form over the primitives and is compared with a hand-written specification term (difference zero under every feasible guard), including who is passed to which curve and when an error is returned.")

prop("Q08", "Cash-flow instruments are worth their remaining discounted flows",
     "A bond is worth the sum of its cash flows after the pricing date, each discounted to its own payment date, over the discount factor of the pricing date; a swap is worth its fixed leg plus its floating leg converted at the given FX rate, each leg discounted on its own curve and only flows after the evaluation date counted. The detailed result carries the same value and lists exactly the flows not yet past, and the yield-based bond price discounts each flow at the given yield for its time to payment.",
     ["inputs"], "every set of cash flows, curves, dates, FX rates",
     "tests have few flows, none on the boundary day, and compare totals",
     [QP + "bond_pricer.rs", QP + "plain_swap_pricer.rs", QP + "krx_yield_pricer.rs"],
     [("bond value", "bond_pricer.rs"), ("swap value", "plain_swap_pricer.rs"), ("yield price", "krx_yield_pricer.rs")],
     technique=NF + ", loops closed to sums",
     note="The cash-flow tables and discount factors are primitives here. The yield price's accrual fraction is checked for shape (value over 1 + yield x fraction), not for the choice of coupon dates.",
     design="The value loops are closed to sums over the cash-flow map with the guard under which an entry counts; the sum, the divisor, the curve used per leg and the date each factor is taken at are compared with the specification term. The tables of the detailed result are compared entry by entry (guard, key counter, date, amount).")

prop("Q09", "Currency exposure equals each leg's value times the unit notional",
     "The reported currency exposure of an instrument is its value times its unit notional in its currency; for an equity futures it is the value less the trade price, and for a swap each leg's discounted value in that leg's own currency, with legs of equal currency added. An FX futures reports, per unit of notional, the underlying discount factor in the underlying currency and minus the trade price times the futures-currency discount factor in the futures currency.",
     ["inputs"], "every instrument kind, currency combination, curve and set of flows",
     "the exposure map is checked by tests for one swap and one futures only; equal currencies or a boundary payment date change which entries exist",
     [QP + "pricer.rs", QP + "futures_pricer.rs", QP + "fx_futures_pricer.rs", QP + "plain_swap_pricer.rs"],
     [("default rule", "pricer.rs PricerTrait::fx_exposure"), ("overrides", "futures_pricer.rs, fx_futures_pricer.rs, plain_swap_pricer.rs")],
     technique=NF + " over map entries",
     note="The FX-futures rule is per unit of notional because an existing test pins it. Pricers that inherit the default rule are enumerated from the trait impls; any further override is reported as unspecified.",
     design="The returned map term is resolved into its entries (insert / entry-modify chains under equality guards of the two currencies) and each entry's amount is compared with the specification; a missing, extra or overwritten entry is a violation.")

QM = "quantlib/src/parameters/"
prop("Q19", "Zero curves discount at the stored rates, before and after a bump",
     "A zero curve holds zero rates at fixed tenors counted from the evaluation date, its discount factors are exp(-rate x time) at those times, and a bump of an interval (open start, closed end, an absent end unbounded) raises exactly the rates inside it by the bump while the factors follow and the times stay. The factor at a date is the one at its time from the evaluation date and a date before it is refused; the factor between two times is the later over the earlier and a reversed pair is refused; a forward rate is read from that ratio over the same, never empty, interval.",
     ["inputs", "histories"], "every curve, every sequence of bumps, every pair of times",
     "tests compare a few factors of a flat or short curve; a bump whose end falls on a tenor, or a table left stale after a bump, is not sampled",
     [QM + "zero_curve.rs"],
     [("construction", "zero_curve.rs new"), ("bump", "zero_curve.rs bump_time_interval"), ("reading", "zero_curve.rs get_discount_factor_*, get_forward_rate_*")],
     technique=NF + ", element-wise tables",
     note="The interpolator and the calendar's time difference are primitives here (Q23 covers the former); real arithmetic is exact. The simple forward rate is (1 - ratio)/tau, as coded, and the statement does not say which quotation is conventional.",
     design="The tables stored on every successful path are compared element by element with their definitions, for construction and for each bump; the interpolators stored with them must be built from exactly those tables. Each reading function's value is compared, path by path, with its formula over the interpolated factor, and its refusals with the stated conditions.")

prop("Q24", "A volatility bump moves exactly the chosen part of the surface",
     "A bump of the volatility surface adds the bump to exactly the nodes whose maturity and spot moneyness lie after the first and up to the second bound of each (an absent bound does not restrict), and the surface that is quoted afterwards is rebuilt from the bumped nodes. It is quoted in forward moneyness, with forward = spot x borrowing discount / collateral discount x dividend ratio at each maturity, where spot is the surface's own or the market's current one according to the stickiness. Total variance is the square of the volatility read times time and total deviation the volatility times the square root of time, for surfaces and constant volatilities alike.",
     ["inputs", "histories"], "every surface, every bump rectangle, every sequence of bumps, both stickiness types",
     "tests rebuild one surface under one stickiness and bump it as a whole; partial rectangles and market moves between rebuilds are not sampled",
     [QM + "volatilities/local_volatility_surface.rs", QM + "volatilities/constant_volatility.rs", QM + "volatility.rs"],
     [("bump", "local_volatility_surface.rs bump_volatility"), ("quoting", "local_volatility_surface.rs build, get_forward"), ("construction", "local_volatility_surface.rs with_market_surface, with_constant_volatility"), ("dispatch", "volatility.rs")],
     technique=NF + ", one guarded store per grid node",
     note="Bounds are compared with the tolerance of 1e-4 the code uses. The interpolators are primitives here. Local volatility is not implemented upstream and not claimed.",
     design="The only store into the table must be at (row, column) of the two loops, under exactly the stated condition, adding the bump; both loops must look at every node (no early exit); the rebuild follows every store. The interpolators that `build` stores are compared row by row with their definition.")

prop("Q23", "Interpolation reads its nodes alike one by one and as a vector",
     "A linear, bilinear, stepwise or constant interpolator accepts only nodes and values of equal number (bilinear tables of the announced shape) in increasing order, and answers the line through (the value of) the last node not above the argument, the extrapolation chosen for it outside the nodes, and an error exactly when extrapolation outside is not allowed or not defined. A vector of sorted arguments is answered element by element as the same arguments one at a time, whatever its length. The searches below them always end and answer the last node not above the value (the first node if there is none), and a value spread over locations goes to its two neighbours in proportion to nearness, or wholly to the outermost one.",
     ["inputs"], "every set of strictly increasing nodes, every argument or sorted vector of arguments, every kind of extrapolation",
     "tests read a few inner points of three-node functions; arguments on a node, before the first or after the last one, long vectors and stepwise extrapolation values are not sampled",
     ["quantlib/src/math/interpolators/linear_interpolator.rs", "quantlib/src/math/interpolators/stepwise_interpolatior.rs", "quantlib/src/math/interpolators/bilinear_interpolator.rs", "quantlib/src/utils/find_index.rs", "quantlib/src/utils/find_index_ndarray.rs", "quantlib/src/utils/distribute_value.rs"],
     [("readings", "interpolate, vectorized_interpolate_for_sorted_ndarray of each interpolator"), ("construction", "new, new_from_rectangle_data"), ("searches", "binary_search_index(_ndarray), vectorized_search_index_for_sorted_*"), ("spreading", "distribute_value.rs")],
     technique=NF + "; loop invariants of the searches by elimination of linear candidates",
     note="Linear and bilinear interpolators count an argument equal to the last node as outside (so refusing extrapolation refuses it), as the code does. Nodes are strictly increasing and vector arguments sorted; exact arithmetic.",
     design="Scalar and vector readings are compared with one model each, the search being a primitive; the refusals of the vector reading must be exactly those of its elements. The searches are proved apart: P, the number of nodes not above the value, is an unknown integer; comparing node t with the value gives t >= P or t <= P - 1; invariants relating the carried indices to P and to the length are found by dropping candidates that are not kept (Houdini over linear facts), and the answer must be P - 1 (or 0) in every case on every way out; some distance between two carried indices must shrink in every pass.")

prop("Q05", "Instruments are selected by exactly the role, name or date asked for",
     "For each kind of instrument and each role (discounting, collateral, borrowing, rate index, the two legs of a currency swap or a currency future) the curve named is the one entered for the key its own contract gives, the name for no curve where the role does not apply, and an error exactly where the entry it needs is missing. Selecting instruments by underlying, currency, type, curve or maturity gives exactly those of the book (or of the list given) that qualify and whose type is not excluded, in order; the lists of curves, underlyings, currencies, currency pairs, types and quanto pairs hold every one that occurs, once. The shortest and longest maturities are those of the list asked for, an instrument without maturity counting as the longest.",
     ["inputs"], "every kind of instrument, every matching table, every book and list of instruments",
     "tests read a few roles of three kinds of instrument and books of two; an instrument passed over, an entry read under another key or an excluded type that ends the walk shows only in mixed books",
     [QE + "match_parameter.rs", "quantlib/src/instrument.rs"],
     [("roles", "match_parameter.rs get_*_curve_name(s)"), ("selections", "instrument.rs Instruments::instruments_with_*, instruments_using_curve"), ("lists and extremes", "instrument.rs Instruments::get_all_*, get_shortest_maturity, get_longest_maturity")],
     technique=NF + "; guarded inclusion for lists",
     note="An instrument using one curve in several roles may be selected several times. The getters of an instrument are primitives here.",
     design="Each role is one function of the instrument's kind and data; its result is compared, case by case, with a table (kind, key, table read, no-curve) including the exact set of cases that are errors. A selection must push the pass's own instrument under exactly the stated condition in one walk over the right list that never ends early; a list without repetition must push each qualifying item unless it is contained already. Maturities: start, step and end of the fold.")

prop("Q06", "Every instrument is priced by its own model on its own market objects",
     "The pricer made for an instrument is the model of its kind, and each price, curve, volatility, quanto, fixing history and exchange rate in it is the one filed under the key the instrument gives for that slot: its underlying, the curve of the matching role, its pair of currencies, its rate index. A quanto is there exactly when the currencies differ and forward curve and fixings exactly when there is a rate index. A pricer is refused exactly when something it needs is missing or its kind has no model; the engine makes one for every instrument, from its own market, and files it under the instrument's code.",
     ["inputs"], "every kind of instrument, every market",
     "tests price single instruments whose curves are all alike or all present; two slots exchanged, an inverted currency pair or a missing quanto silently ignored give plausible values",
     [QE + "pricer_factory.rs", QE + "engine.rs"],
     [("creation", "pricer_factory.rs create_pricer and get_*_pricer, the pricers' constructors"), ("filing", "engine.rs initialize_pricers")],
     technique=NF, note="Roles of curves are primitives (Q05); a Futures without its underlying's price panics rather than being refused, which counts as refused.",
     design="create_pricer is evaluated with the constructors in line; per kind of instrument the variant made and every field of the pricer must equal the map entry under the key the specification gives, and the guard of success must be the conjunction of the entries' existence. initialize_pricers must hand over the engine's own maps slot by slot and insert the pricer under the code in every pass.")

prop("Q01", "Risk runs leave the market as they found it",
     "After every risk calculation that completes (delta and gamma, vega, rate and dividend sensitivities, their ladders by tenor, the vega matrix, theta) each price, curve, volatility and dividend of the engine and its evaluation date are what they were before it. No bump outlives the figure it was made for, so the value of no instrument and no figure depends on which figures were computed earlier.",
     ["inputs", "histories"], "every risk calculation, every set of instruments, tenors and bumps, in exact arithmetic",
     "tests compute a few figures of small books; a bump that stays needs a tenor beyond all maturities, an instrument group that is skipped, or a figure read after another",
     [QE + "engine.rs"], [("bump and put back", "engine.rs set_delta_gamma, set_vega, set_rho, set_div_delta, the *_structure steps, set_vega_matrix, set_theta_for_given_instruments"), ("what bumps touch", "market_price.rs set_price, *=")],
     technique=NF + ", the market as a ghost value of its bumps",
     note="Exact arithmetic (adding and subtracting a bump in f32 may differ in the last bit); runs that end in an error are not covered (the engine is then unusable anyway); tenors are in increasing order.",
     design="The engine's market is one ghost value: every bump of a curve, surface or dividend adds a move (object, interval, amount) to it, every price or date set overwrites that part. Each risk step's inner loops must bring the ghost back to what it was when the pass began (moves of the same interval cancel; consecutive intervals of a ladder add up to the open one by induction over the tenors), and the whole step to where it began. The setters the ghost relies on are checked as normal forms themselves.")

prop("Q02", "Each risk figure is the scaled revaluation difference of its own bump",
     "Each sensitivity recorded for an instrument is its value in the market with exactly one risk factor (or one interval of it) bumped minus its value without that bump, divided by the bump and scaled to the unit of the figure and the unit notional; delta is the central difference of the price moved up and down by the ratio, gamma the second difference, and theta the change of value plus the cash paid on the way when the date moves on. It is recorded under that instrument and that factor, for every instrument depending on the factor, at the tenor whose interval was bumped, and only values of the same calculation enter it. A figure is computed exactly when it is asked for, after the valuation it compares to, and every valuation, cash flow and exposure is kept for every instrument under its own code.",
     ["inputs", "histories"], "every figure, every book of instruments, every configuration of tenors, moneyness and bumps, in exact arithmetic",
     "tests read a few figures of one or two instruments; a figure filed under another key, a ladder cell off by one interval or a stale table is only visible in larger books",
     [QE + "engine.rs", QE + "calculation_result.rs", QE + "npv_result.rs"],
     [("figures", "engine.rs set_* steps"), ("kept results", "calculation_result.rs"), ("what is asked for", "engine.rs calculate"), ("expected cash flows", "npv_result.rs")],
     technique=NF + ", each recorded figure compared as a normal form over ghost valuations",
     note="The valuation of an instrument in a market is a primitive (the pricers have their own properties), and so are the selections of instruments by underlying, curve, type and maturity. Ladder cells of intervals that begin after the longest maturity may be left at zero.",
     design="Every call that records a figure is found with its guard, its loops and its value; the value is compared with (valuation in the market with this one bump - recorded valuation) / bump x unit x notional, where valuations are terms over the ghost market of Q01; loops must cover every factor, instrument and tenor; tables must be filled in the same pass; ladders that difference successive bumps are proved by induction over the walk. What results keep and what calculate() runs is compared likewise.")

prop("Q20", "Dividends ahead lower the forward, dividends passed lower the price",
     "The dividend deduction applied to a date is the product of one minus amount over spot over the dividends strictly after the evaluation date and up to that date, also after a bump of the dividends of an interval (open at its start, closed at its end) and after every move of the evaluation date. Moving the evaluation date forward multiplies a dividend-paying price by one minus the ratio of each dividend passed, moving it back undoes exactly those, and every way of moving the date updates every registered price and dividend with the new date.",
     ["inputs", "histories"], "every set of dividends, every bump interval, every sequence of date moves",
     "tests roll one set of dividends a few days; a dividend exactly on a boundary, a bump after a roll or one of the ways of moving the date is not sampled",
     [QM + "discrete_ratio_dividend.rs", QM + "market_price.rs", "quantlib/src/evaluation_date.rs"],
     [("deduction interpolator", "discrete_ratio_dividend.rs"), ("price roll", "market_price.rs update_evaluation_date"), ("observers", "evaluation_date.rs")],
     technique=NF + ", loops closed to products and filtered sequences",
     note="The step interpolator the deduction is stored in is a primitive here (Q23 covers its reading); real arithmetic is exact. Prices without a dividend are unchanged by a roll, as coded.",
     design="The interpolator stored on every successful path of construction, bump and roll is compared with: dates of the dividends strictly after the evaluation date, running products of one minus yield over exactly those, one before the first and the whole product after the last. The price's roll is compared with the product over the dividends passed, in each direction. Every function of the evaluation date that stores a date must store it before the observers run and update every registered price and dividend, unconditionally.")

NCV = "trading-engine/src/utils/numeric_converter.rs"
KRX = "trading-engine/src/data/krx/"
LN = "abstract interpretation to normal forms; bit-field lane domain over linear forms of the digits"
prop("T07", "A fixed-width number field is read exactly, every digit in its place",
     "Reading a fixed-width numeric field (a time of day, or a number of up to eighteen digits of any announced format: sign, unused characters, whole digits, decimal point, decimals kept or dropped) gives exactly the number its digits spell, negative exactly when a signed field's first character is not '0'. Nothing outside the field, neither its unused or dropped characters nor the bytes beyond it, reaches the value, and checked and unchecked reads agree wherever both apply. A format whose parts do not add up to its width, or with more digits than fit 64 bits, is refused.",
     ["inputs"], "every digit string, every format of up to eighteen digits (a covering subset of those with unused or dropped characters), every content of the bytes beyond the field",
     "digits are packed eight or sixteen to a machine word and moved by masks, shifts and multiplications; a mask one bit short, or a decimal point at a word's edge, shows only for some digits of some widths",
     [NCV, KRX + "krx_converter.rs"],
     [("word tricks", "numeric_converter.rs parse_under8/16/32(_with_floating_point), u8_chunk_to_u64/u128_decimal, parse_hhmmss_to_nanos"), ("formats", "numeric_converter.rs IntegerConverter::new, to_u64, to_i64, to_*_unchecked"), ("exchange's formats", "krx_converter.rs krx_*_converter")],
     technique=LN,
     note="The reading loads whole words, so bytes beyond the slice are read; that they exist is the caller's matter (the records of T08 have them) and not claimed. The unchecked readings are claimed for the fields they are meant for: no sign, at most sixteen (long: eighteen) digits.",
     design="Each reading function is interpreted once per format with the digits left symbolic. The packed word is a set of lanes, disjoint bit fields each holding a linear form of unknown digits with its greatest value; and/or/shift/multiply/add act on lanes as long as no field can run into the next, which is checked at every step. What is left must be one lane holding sum of digit times power of ten. Bytes beyond the field are lanes of unknown content and must not be left in the result.")

prop("T08", "Every field of an exchange record is decoded from its own place",
     "Decoding a quote, trade or trade-and-quote record of the exchange gives for each numeric field (price, quantity, order count, liquidity provider quantity and the day's volume where asked for) exactly the number spelt at that field's position in the published layout of the record, each level and side in its own entry, absent where the record has no such field. The identifier, time and side of the trade come from their own places, and the number formats and number of levels kept with the data are those it was read by. Decoding into a buffer gives what decoding afresh gives, whatever the buffer held, levels beyond those asked for being left alone.",
     ["inputs", "histories"], "every record of the seven layouts, every number of levels asked for, any earlier content of the buffer",
     "tests decode a few sample records and look at some levels; one level of one side read from a neighbour's place, or a value left from the record before, is not sampled",
     [KRX + "derivative_quote.rs", KRX + "derivative_trade.rs", KRX + "stock_quote.rs", KRX + "unroll_macro.rs"],
     [("decoders", "IFMSRPD0034/0035/0036/0037/0038/0002/0003 to_*_snapshot(_buffer), to_trade_data(_buffer)"), ("levels", "unroll_macro.rs")],
     technique=LN + "; layout tables as oracle",
     note="Identifier, clock and time-stamp reading are primitives applied to the right slices. The converter of the day's volume kept beside a record that was decoded without it is not claimed. A buffer must hold as many levels as asked for (T09).",
     design="Each decoder is interpreted for every number of levels it accepts, with and without the day's volume, on a record of symbolic digits. Every field of the result is compared with the linear form spelt at the position the layout table gives for it under the format the result carries; the buffer's other content must be untouched or replaced exactly as in the fresh result; no byte past the record's end may be read.")

prop("T09", "Only whole records are decoded, and nothing else stops the feed",
     "A payload is decoded only if it has exactly the length of its record and ends with the end byte, and a whole record with a readable code and time is never refused; no payload, of whatever length or content, stops the process, and one that is refused leaves the buffer it was meant for as it was, as does a buffer with too few levels on either side. The number of levels asked for is accepted exactly up to those of the record. The number format follows the transaction code and the instrument code, and every transaction code names its record, each as published.",
     ["inputs"], "every payload of every length and content, every number of levels, every buffer",
     "tests decode whole sample records; a truncated or damaged payload, a short side of a buffer or a rare transaction code is not sampled",
     ["trading-engine/src/data/checker.rs", KRX + "krx_converter.rs", KRX + "interface_map.rs", KRX + "derivative_quote.rs", KRX + "derivative_trade.rs", KRX + "stock_quote.rs"],
     [("checks", "checker.rs"), ("format choice", "krx_converter.rs get_krx_derivative_converter"), ("codes", "interface_map.rs KRX_TR_CODE_MAP"), ("levels asked for", "with_quote_level_cut")],
     technique="abstract interpretation to normal forms; panic reachability; extracted tables against oracles",
     note="Digits are taken to be digits where a number is spelt (a letter there gives a number, not a panic). The clock's state may advance for a record refused later.",
     design="For each decoder the condition under which it answers is a formula over the payload's length and bytes: it must imply, and with readable code and time be implied by, length and end byte; the condition of a panic must be unsatisfiable; when refused, the buffer's final value must equal its first. The choice of format is compared case by case with the table, and the table of codes, extracted from the map's initializer, with the published list.")


QT = "quantlib/src/time/"
prop("Q10", "A day is a holiday exactly when its calendar's rules say so",
     "For South Korea (exchange and settlement, 1951-2050) and the United States (settlement, New York exchange, government bond, SOFR and Federal Reserve, 1901-2199) a day is a holiday exactly when it is a weekend, or is one of the calendar's holidays or was added to it, and was not removed from it - the holidays being the lunar and fixed feasts, Western Good Friday, the nth-weekday and moved-to-Monday-or-Friday days and the special closings published for that calendar, judged on the date of the calendar's own time zone. A removed day that is a weekend stays closed, and no date in those years stops the process. A joint calendar is closed exactly on the days a member is, and the empty calendar on weekends only.",
     ["inputs", "histories"], "every day of the years the calendars cover, every list of added and removed days",
     "tests ask for a few dates of a few years; a wrong entry for one year of a table or a rule that starts a year early is not sampled",
     [QT + "calendars/southkorea.rs", QT + "calendars/unitedstates.rs", QT + "calendars/nullcalendar.rs", QT + "holiday.rs", QT + "constants.rs", QT + "calendar_trait.rs", QT + "jointcalendar.rs"],
     [("rules", "Holidays::is_holiday of each calendar kind"), ("tables", "constants.rs"), ("order of the tests", "CalendarTrait::_is_holiday"), ("joint calendars", "JointCalendar::is_holiday, is_business_day")],
     technique="summaries of each date predicate from MIR, their decision diagrams tabulated over the days and compared with independent calendar rules",
     note="The rules compared with are computus (Western Good Friday), an extract of the Korean lunar calendar kept in sa/oracles, and the published US rules as QuantLib documents them; what the authorities decide later is outside. Local clock changes (summer time) are outside: calendars have a fixed offset.",
     design="Each predicate of a calendar kind is interpreted on its own with every other function opaque, giving a decision diagram over comparisons of year, month, day, weekday and ordinal (table look-ups included). The diagrams are tabulated bottom-up with one bit per weekday of the covered years, calls resolved to their own summaries, and the result compared bit by bit with the rules. The calendars' own is_holiday, the joint calendar's and the add/remove operations are compared as normal forms.")

prop("Q11", "Dates adjust and periods count by the convention named",
     "Adjusting a date forward or back gives the first day in that direction, counting whole days from the date itself, that the calendar does not call a holiday; the modified conventions give that day exactly when it lies in the date's month and otherwise the first open day in the other direction, and an unadjusted date is left alone. Leap years and month ends are Gregorian, and the length of a period is its days over 365, 360 or 364, its 30/360 days with or without the month-end rule, or its actual days over the actual length of each year it crosses; an end before the start is refused. A calendar answers the same whichever convention object asks, and a joint calendar counts as its first member does.",
     ["inputs"], "every date, period, calendar and convention",
     "tests adjust a handful of dates; the fall-back across a month end, a leap year in a long period or two month ends is not sampled",
     [QT + "calendar_trait.rs", QT + "jointcalendar.rs", QT + "conventions.rs"],
     [("adjustment", "CalendarTrait::adjust and its four directions"), ("month ends", "last_day_of_month, is_leap_year"), ("lengths", "year_fraction, get_time_difference")],
     technique="loop summaries and normal-form comparison (MIR)",
     note="That an adjustment ends needs a calendar with an open day in reach, which is not claimed. The 30/360 rule is checked for every pair of days of the month; rounding of single-precision fractions is outside.",
     design="The loops of the adjustments are summarised: start value, step, the condition to go on and the condition to stop, and which loop's result is returned under which comparison of months. The fractions are compared with their definitions as normal forms, the actual/actual sum and the exact time per year of the sum.")



SARITH = "quantlib/src/utils/string_arithmetic.rs"

prop("Q12", "Adding and subtracting periods moves dates by exactly the stated units",
     "Years and months change only the year and month of a date, the day coming down to the end of a shorter month and the clock and offset staying as reached so far; weeks, days, hours, minutes and seconds shift it by exactly that long, the parts of a period are applied in the order written, and a text with no part in it is refused. The year fraction of a period is the sum of the fractions of its parts. Each payment frequency steps by its own tenor times the multiple asked, and the evaluation date moves by periods and tells its observers afterwards.",
     ["inputs"], "every date, every period of every unit and number, in any combination and order",
     "tests add a few periods to a few dates; a month sum that ends in December, a clock moved by an earlier part or more than a year of months back is not sampled",
     [SARITH, QT + "conventions.rs", "quantlib/src/evaluation_date.rs"],
     [("periods", "string_arithmetic.rs add_period, sub_period, add_period_date, sub_period_date, from_period_string_to_float"), ("tenors", "conventions.rs PaymentFrequency"), ("clock", "evaluation_date.rs EvaluationDate += -= + -")],
     technique="loop summaries with exact congruence arithmetic on months, normal-form comparison (MIR)",
     note="Months are decided for all 12 start months, all remainders and any number of years, with n = 12k + r kept symbolic in k. Known finding: sub_period_date is a year late beyond the year before, which an existing test asserts. The pattern of the text is read from the source and judged on period texts; overflow of enormous numbers is outside.",
     design="The loop over the parts is summarised to one step; per unit the date after a part is compared with its definition on the date before it. Integer division and remainder by 12 are evaluated exactly on multiples plus a constant.")

prop("Q13", "Coupon schedules run from the effective date to maturity without gaps",
     "Periods are laid at whole multiples of the payment frequency counted from the effective date forward, or from maturity back, until the other end is reached, and adjusted by the calendar and convention; the first starts at the effective date, each starts where the one before ends, and the last ends and pays at maturity. Each period fixes on the open day at or before its start less the fixing gap, and all but the last pay on the adjusted day of their end plus the payment gap. Negative gaps, and a period that ends no later than it starts, are refused.",
     ["inputs"], "every effective date, maturity, frequency, gap, calendar and convention, forward and backward",
     "tests compare three schedules with written-out dates; other gaps, one-period schedules and stubs are not covered",
     ["quantlib/src/instruments/schedule.rs"],
     [("schedule", "schedule.rs build_schedule, BaseSchedule")],
     technique="loop summaries and normal-form comparison (MIR)",
     note="How dates move by a period is Q12, how they adjust is Q11. A frequency of none has no periods and is outside. That a raw date counted backward stops short of the effective date is taken as the first period starting at the effective date itself.",
     design="The counting loops are summarised (start, step from the fixed end, condition to go on), the list of raw dates as a sequence, and each field of each period as a guarded term in its index.")

QI = "quantlib/src/instruments/"
prop("Q14", "Bonds and swaps pay exactly the cash flows of their terms",
     "Every period of a bond paying on or after the pricing date contributes its given amount, else the floating coupon of a bond with a rate index, else fixed rate times period length, and one of principal falls due at maturity unless only coupons are held; amounts of one date add up. A swap's fixed side receives its initial and pays its final exchange where it has them and pays fixed rate times length on the initial exchange (one if none) each period; its floating side mirrors this with floating coupons, also once the initial exchange is past. The standard bond of a bond future is worth its coupons and principal discounted at its own frequency.",
     ["inputs"], "every schedule, pricing date, set of terms, curve and history of fixings",
     "tests price a few bonds and swaps on schedules of one shape; given amounts, coinciding dates, past exchanges and coupon strips are not covered",
     [QI + "bond.rs", QI + "plain_swap.rs", QI + "ktbf.rs", QT + "conventions.rs"],
     [("bond", "bond.rs Bond::get_cashflows"), ("swap", "plain_swap.rs PlainSwap::get_fixed_cashflows, get_floating_cashflows"), ("standard bond", "ktbf.rs KtbfVirtualBond::npv"), ("frequency", "conventions.rs PaymentFrequency")],
     technique="ledger reading of map updates over gated value flow (MIR); normal-form comparison",
     note="What a floating coupon is worth is Q15, how periods are laid Q13, how lengths are counted Q11. The initial and the final exchange of a swap are taken to fall on different days. Failing to compute one amount fails the whole.",
     design="Every entry, insertion or change of the returned map is read as an amount added to a date under a condition; the ledger of one pass of the loop over the periods and of what comes before and after it must equal the ledger of the terms, date by date and condition by condition, and no period may leave the loop early.")
prop("Q15", "Floating coupons use the fixing or forward rate of their own dates",
     "A coupon on a term rate is (rate + spread) times the length of its period, with the recorded fixing of its fixing date if that lies before the pricing date, the rate from the pricing date to the end of the index tenor if no fixing is recorded, and else the forward rate from the fixing date over the index tenor. An overnight coupon not yet fixing takes the mean of the forward rates of its first and last fixing; one under way compounds 1 + (rate + spread) times length over steps of the compounding tenor from start to end of the period, the last cut at the end, each fixing on the open day at or before its start less the fixing days.",
     ["inputs"], "every period, pricing date, tenor, spread, calendar and history of fixings",
     "the test compares two coupons on a flat curve; missing fixings, stubs, the day of fixing and other tenors are not covered",
     ["quantlib/src/parameters/rate_index.rs"],
     [("coupon", "rate_index.rs RateIndex::get_coupon_amount")],
     technique="loop summary and per-case normal-form comparison (MIR)",
     note="Forward rates are Q19 and Q24's curves, dates Q11 and Q12. A step of a coupon under way without its recorded fixing takes the rate from the pricing date over the compounding tenor.",
     design="The compounding loop is summarised as start, step, condition to go on and factor of one step, and each is compared with the definition in every case of recorded, missing and coming fixing.")
prop("Q16", "Contracts keep their terms and refuse contradictory ones",
     "A contract built answers every question about its terms - names, dates, currencies, rates, conventions, strike, underlyings, curve names - with the very value it was given, and its kind and currency pair follow from them. A bond needs exactly one of fixed rate and rate index; a swap must be an interest rate swap (no exchanges, rate and index, one currency), a currency swap (all exchanges, rate and index, two currencies), an FX swap (all exchanges, no rates or periods) or an FX forward (final exchanges only; spot within two days of issue); the bonds under a bond future must be priced for its maturity. Every other combination is refused and these are all accepted.",
     ["inputs"], "every combination of terms, built from schedules or from conventions",
     "tests build a few valid contracts; refused combinations and most answers are never asked for",
     [QI + x for x in ("bond.rs", "plain_swap.rs", "ktbf.rs", "futures.rs", "fx_futures.rs", "bond_futures.rs", "vanilla_option.rs", "stock.rs", "cash.rs")] + ["quantlib/src/instrument.rs"],
     [("construction", "instruments/*.rs new, new_from_conventions"), ("answers", "instruments/*.rs impl InstrumentTrait")],
     technique="constructor summaries with exact acceptance conditions (BDD), field provenance",
     note="Questions a contract has no answer to keep the default of the interface (an error, or none). An error in building a schedule refuses the contract.",
     design="Every constructor is reduced to the record it returns, each field compared with the argument of its meaning, and to the exact condition of acceptance, compared both ways with the admissible combinations; every getter is compared with the field of its meaning.")

prop("Q17", "A portfolio run prices every instrument in one group and reports failures",
     "Instruments are given out to the categories in order, each taking those not taken yet whose kind and currency it lists and whose underlyings are exactly those it names (where it names any and the instrument has any); one that no category takes is an error. Every group is run through an engine of its own with the configuration, date, matching and data sets given, all its results end under their own codes and nothing else does, and a failure in any group is the run's failure. A group that is empty or holds a matured instrument is refused, and each instrument's result starts with its own details and no figures.",
     ["inputs"], "every list of instruments, categories and data sets",
     "tests run one portfolio whose categories do not overlap and whose groups all succeed",
     [QE + "engine_generator.rs", QE + "engine.rs", "quantlib/src/instrument.rs", QE + "calculation_result.rs", "quantlib/src/instruments/instrument_info.rs"],
     [("distribution", "EngineGenerator::distribute_instruments, InstrumentCategory::contains"), ("run", "EngineGenerator::calculate, with_*"), ("group", "Engine::with_instruments")],
     technique="loop summaries over categories and groups, provenance of engine inputs and results, exact failure conditions",
     note="Assumes instruments have distinct codes. What the engine then calculates is Q01/Q02, which market objects it uses Q06 and Q25. The parallel walk over groups is analysed as a walk in some order; the groups share only the guarded map of results.",
     design="The two nested loops of the distribution are closed into the list of groups and the record of placed instruments, and compared with the definition; the walk over the groups is compared with the chain of engine calls given the group and each data set in its role, the shared map with the engine's results entered under their own keys, and the success condition with no step of any group failing.")

prop("Q25", "Market data are loaded by name, completely, and kept up to date",
     "Every exchange rate, curve, stock price, dividend list, volatility, quanto and price history an engine works with is made of the data filed under its own name - an exchange rate from its own quote, else the reciprocal of the opposite one, else the ratio of the two currencies' quotes in won - for exactly the names the instruments ask for, and missing data that are needed stop the run. A stock's price carries that stock's own dividends and currency, a volatility its own price, collateral and borrowing curves, surface and settings. Every price and every dividend list is told when the evaluation date changes.",
     ["inputs"], "every set of data and instruments",
     "tests load complete data sets whose quotes never compete",
     [QE + "engine.rs"],
     [("loading", "Engine::with_parameter_data"), ("observers", "Engine::with_parameter_data, last loops")],
     technique="loop summaries of the map-filling loops compared entry by entry (key, object, condition) with the specification",
     note="The constructors of the market objects are opaque here (Q19, Q20, Q24 decide what they do with the data). Dividends may be missing. The lists of names asked for are Q05.",
     design="Each loop that fills a map is summarised as the entries one pass makes; every entry's name, object and condition are compared with the definition in terms of the data sets and the maps filled before, passing over a name or stopping is compared with data being missing, and the two observer loops are checked to cover the whole maps.")

prop("T13", "The spin queue never lets the writer and a worker touch the value together",
     "The shared value is handed to the writer only when no worker has work pending, and to a worker only between a notification and that worker's own completion; a notification makes work pending for exactly the workers the queue was built with, and a completion ends the work of its own worker alone, whatever others do meanwhile. What the writer wrote before a notification is seen by every worker it hands the value to, and what a worker did with the value before its completion comes before what the writer does next. Worker numbers run from 0 to 15, a repeated worker is refused, and a queue or worker made by default is as good as one built.",
     ["schedules", "inputs"], "every interleaving of writer and workers, every list of workers",
     "the one concurrent test runs one schedule on a strongly ordered machine; a lost completion or a missing release needs a particular interleaving or a weaker memory order",
     ["trading-engine/src/spinqueue.rs"],
     [("hand-over", "DataSpinQueue::get, get_mut, ready_to_update, ready_to_work"), ("notification and completion", "DataSpinQueue::notify_all_workers, work_done"), ("construction", "WorkerId::new, DataSpinQueue::new, Default")],
     technique="effect and memory-order analysis of atomic operations (MIR), normal-form comparison of masks",
     note="The protocol is judged for one writer and for workers who use the pointer only between taking it and completing; both get raw pointers, so the compiler does not enforce that. WorkerId's fields are public and are taken to be as its constructors make them.",
     design="Every atomic operation of every method is extracted with its order and operands: hand-overs must be decided by one load of the status with acquire order and the exact mask, a notification must be one release store of the union of the workers' bits, a completion one atomic read-modify-write with release order clearing exactly the worker's bit, no other method may write the status or the pointer, and the pointer must come from an owned allocation. With that the happens-before argument is that of release sequences, which only read-modify-writes continue, so it covers every interleaving.")

prop("T15", "Counters give every number once, from the start to the end",
     "Every request to a counter takes the next number, beginning with the start it was made with, and no two requests get the same one, however many threads ask at once. A bounded counter gives numbers up to and including its end and refuses every request after that. The running order number counts up by one likewise.",
     ["schedules", "histories"], "every interleaving of requests, every start and end",
     "tests count in one thread, or in a few threads that hardly overlap",
     ["trading-engine/src/utils/counter.rs", "trading-engine/src/types/base.rs"],
     [("counters", "counter.rs CounterUsize, CounterU64, UnboundedCounterUsize, UnboundedCounterU64"), ("order numbers", "VirtualOrderId::next_id")],
     technique="effect analysis of atomic operations (MIR), normal-form comparison",
     note="Holds until the number type is exhausted: the counter wraps after its largest number, so a bounded counter whose end is that number starts anew.",
     design="Each request must contain exactly one atomic operation on the counter, a read-modify-write adding one, and answer with what that operation read; the condition to answer is compared both ways with being at most the end. No other function may step the counter.")
prop("T16", "Clock times become the right instants, differences and log dates",
     "A time of day read from an exchange record becomes the day in force plus the offset plus that time to the microsecond, moved forward by as many whole days as it takes until the time before is less than fifteen hours ahead of it; the day in force moves by the same days and the result is remembered as the time before. Setting the day from an instant keeps whole days only, and a difference of two times is counted exactly in the unit asked for. A log's date is the Gregorian calendar day and its time the hour, minute, second and smaller parts of the instant at the offset in force.",
     ["inputs", "histories"], "every time of day, day in force, time before, instant up to the last the type holds and offset of less than a day",
     "tests read a few times of one day and print one date; a gap of several days, a day crossed by the offset or a century year is not sampled",
     ["trading-engine/src/utils/numeric_converter.rs", "trading-engine/src/types/timestamp.rs", "trading-engine/src/utils/timer.rs", KRX + "krx_converter.rs"],
     [("times of day", "TimeStampConverter::parse_hhmmssuuuuuu"), ("day in force", "DateUnixNanoGenerator"), ("differences", "TimeStamp::diff_in_*"), ("log times", "timer.rs convert_unix_nano_to_date_and_time, days_to_date")],
     technique="loop summaries and normal-form comparison of whole-number division (MIR)",
     note="How digits are read is T07. Differences assume the first time is not before the second. The clock itself (what time it is now) is outside.",
     design="The loops that move days and count years and months are summarised as start, step and stop condition and compared with their definitions; nested quotients and remainders are brought to one form; month lengths are evaluated month by month by constant propagation, and the layouts of date and time are compared as compiled.")
prop("T18", "Time-weighted averages decay by the time since the last update",
     "The weight over an interval is the weight of one unit to the power of the time between the two stamps, counted in the weight's own unit. Updating an average keeps that weight of the old value and takes the rest from the new one; updating a sum keeps that weight of the old sum and adds the new value whole. Either way the update's stamp is what the next update counts from.",
     ["inputs", "histories"], "every weight, unit, value and series of stamps",
     "the only test weighs one interval in seconds; no average or sum is ever updated in a test",
     ["trading-engine/src/feature/weight.rs", "trading-engine/src/feature/weighted_valuation.rs", "trading-engine/src/types/timestamp.rs"],
     [("weight", "TimeSeriesWeight::apply"), ("average", "EWMA::update"), ("sum", "EWMS::update")],
     technique="state summaries compared as normal forms (MIR)",
     note="Rounding is outside; stamps are taken to come in order.",
     design="Each unit's case of the weight is compared with the power of the difference in that unit; the final value, stamp and weight of an update are compared with their definitions over the value before.")
prop("T11", "Identifiers keep what they were given and one id stands for one instrument",
     "A security code is accepted exactly when it is twelve bytes of ASCII without blank or tab, and a ticker when it is UTF-8 text of at most 32 bytes; the bytes given are kept in full, compared in full and handed out unchanged, and codes read back are checked the same way. All ids made or read for one symbol and venue are one shared entry, whatever the order or the thread, and ids of different symbols or venues differ. The getters of an id give the symbol and venue it was made for.",
     ["inputs", "histories", "schedules"], "every byte string, every sequence and interleaving of ids made and read",
     "tests make two codes and read back ids they made themselves, in one thread",
     ["trading-engine/src/types/id/mod.rs", "trading-engine/src/types/id/isin_code.rs", "trading-engine/src/types/id/ticker.rs", "trading-engine/src/utils/checkers.rs"],
     [("codes", "IsinCode::new, its Deserialize"), ("tickers", "Ticker::new, its Deserialize"), ("ids", "InstId::new, its Deserialize, ID_CACHE"), ("comparisons", "PartialEq of IsinCode, Ticker, Symbol, IdData, InstId")],
     technique="value-flow normal forms with byte-set evaluation; lock-scope and effect analysis of the cache (MIR)",
     note="A ticker's text includes the zeros it is filled up with.",
     design="The condition to accept is split into the bytes it refuses (each predicate evaluated on all 256 byte values) and the length, and compared both ways. Every place an id can point at must be an entry of the cache read under its own key, or a new place entered under its own content, only if absent, inside the one critical section that looked; no function of the module removes or replaces entries, and privacy keeps others out.")
prop("T17", "Codes and names of the enums stand for their own variant",
     "Order sides, data types, trade types and log levels are read from exactly the numbers of their variants, each giving its own variant, and every other number is refused. A log level's number read back gives the same level. The names of venues, currencies and log topics are those of their variants, a currency's identifier is its name followed by nine zeros, and the opposite of an order side is the other side.",
     ["inputs"], "every number and every variant",
     "no test reads a variant from a number or compares a name",
     ["trading-engine/src/types/enums.rs", "trading-engine/src/types/venue.rs", "trading-engine/src/topics.rs", "trading-engine/src/logger.rs", "trading-engine/src/conductor/oms/account.rs"],
     [("numbers", "FromU8, LogLevel::from_usize, as_usize"), ("names", "Venue::as_str, Currency::as_str, as_isin_bytes, LogTopic::as_str"), ("opposite", "OrderSide::opposite")],
     technique="table extraction and comparison with the type definitions (MIR)",
     design="The number of every variant is taken from the type as compiled; the guards under which each variant is returned are compared with it both ways, the rest must be refused. Names are compared variant by variant with the names in the type.")
prop("Q21", "Currencies and currency pairs read back as they are written",
     "A currency's name is the three letters of its variant, reading the name gives the currency back, and an unknown text gives the undefined currency. A pair keeps its two currencies in their places, its opposite swaps them, and it is shown as both names in order and written as both names joined by an underscore; reading either text gives the same pair, and a written text with a name that is no currency is refused. The pairs made from a list of currencies are all ordered pairs of different ones, plus every required pair not already among them.",
     ["inputs"], "every currency, every pair and every list of currencies",
     "the tests write one pair as text, never read one back, and try one list of currencies",
     ["quantlib/src/currency.rs", "quantlib/src/utils/make_fx.rs"],
     [("names", "Currency::as_str, From<&str>, Display"), ("pairs", "FxCode: new, reciprocal, Display, From<&str>, Serialize, Deserialize"), ("all pairs", "currencies_to_fx_codes")],
     technique="constant propagation over every variant, and value-flow normal forms of the readers (MIR)",
     design="Every variant, and every pair of variants, is propagated as a constant through the name, through the reader of the name, and through the formatting calls, whose layout is decoded from the compiled format; the reader of a written pair must split at the underscore, read each half in its place and compare the name of what it read with the half.")
prop("Q22", "Prices and data filed by date are found by date",
     "The close asked for at an instant is the one filed under its day at the exchange's offset or, once the close of that day has passed, under the following business day from the next day on, and none if none is filed there; a history is a copy of the data given, and lists its days in ascending order, each with its own value. A series is accepted only with one date per value and a market date, or one time per value, and its times are the given ones or the calendar differences from the market date to each date. Price arithmetic changes the price only, and price and data objects give back what they were made with.",
     ["inputs"], "every history, instant, offset, close time, series and price",
     "the tests look up one day of a default history and make two series",
     ["quantlib/src/parameters/past_price.rs", "quantlib/src/parameters/market_price.rs", "quantlib/src/data/daily_value_data.rs", "quantlib/src/data/vector_data.rs", "quantlib/src/data/surface_data.rs", "quantlib/src/data/value_data.rs", "quantlib/src/evaluation_date.rs"],
     [("closes", "DailyClosePrice::get, get_at_datetime, new_from_data"), ("lists", "get_ordered_data_by_datetime, get_ordered_data_by_date"), ("series", "VectorData::new"), ("prices", "MarketPrice: AddAssign, SubAssign, MulAssign, DivAssign"), ("objects", "the constructors and getters of the data types")],
     technique="gated value-flow normal forms of lookups, lists and constructors (MIR)",
     note="The answers of the business day adjustment and of the day count are those of Q10 and Q11.",
     design="The guard and the key of every lookup are compared with those of the statement both ways, with the date functions left opaque; the list must be the map's own entries after one sort whose comparison closure is decided to be ascending by day, and both outputs must be taken from the same entry.")
prop("T14", "The log keeps every message once and in order until it is written",
     "Every message the logger takes is kept behind those taken before it; what is kept is written to the open file exactly as it stands, once and in order, and forgotten only then, also while no file is open or the file changes, and a flushing message is written at once if a file is open. A new file is opened to append, after the old one was flushed. Closing alone ends the logger, after what is kept was written and the file flushed; finalizing, which dropping the guard does, sends the closing message and waits for the end.",
     ["inputs", "histories"], "every sequence of messages, whatever their kinds, lengths and times",
     "the one test logs some lines and asserts nothing about the file",
     ["trading-engine/src/logger.rs"],
     [("the thread", "LOG_SENDER"), ("messages", "LogMessage, LazyMessage::eval"), ("the ends", "Logger::launch, Logger::finalize, LoggerGuard::drop, Logger::with_max_log_level")],
     technique="per-message ledger over the loop summary of the logger thread: value flow of the kept pieces, path dominance of writes (MIR)",
     note="Messages kept when no file is ever opened are not written. Write failures end the logger. The level gate is in macros expanded in the caller and is not covered; of the level, only how it is stored.",
     design="The loop of the logger thread is summarised once. For each kind of message the kept pieces after the turn are compared with those before followed by its own text, or nothing; nothing is allowed only on paths dominated by a write of exactly those pieces joined by nothing to the open file, and staying only on paths without such a write. The exits of the loop are compared with the closing message both ways, and the writes behind it must cover the closing exit.")
