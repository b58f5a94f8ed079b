#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the texts are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe_at=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": w} for n, w in state]
    a["observe_at"] = [observe_at or "return values of the public functions and the records they write"]
    a["hook_needed"] = "none"
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why, anchors=a))
NB = "vectorbt/portfolio/nb.py"
WHY = "The tests compare a handful of fixed inputs with stored outputs; the claim is over every "

p("C01", "Executing one order changes cash, position and debt exactly by its fill",
  "Executing an order either fills it, and then cash changes by exactly minus (buy) or plus (sell) size times price minus the fees, the position by plus or minus the size, debt by the value of the shares newly borrowed (or by the covered fraction of it) and free cash accordingly, or it does not fill it and leaves cash, position, debt and free cash as they were. "
  "The order record and the log record written for it state the fill and the state before and after it, are written only for a filled order (respectively an order with logging on), and take the next consecutive number. "
  "If the value is updated at each fill, the new value differs from the old one by the cash flow plus the change in asset value at the fill price.",
  "every account state with non-negative cash and debt, every order the checks accept (all size types, directions, fees, slippage, granularity, limits)",
  WHY + "combination of state, order type, limit and fee, most of which no test visits.",
  [NB], [("buy", NB + ":buy_nb"), ("sell", NB + ":sell_nb"), ("execute", NB + ":execute_order_nb"),
         ("process", NB + ":process_order_nb"), ("order record", NB + ":fill_order_record_nb"),
         ("log record", NB + ":fill_log_record_nb"), ("value", NB + ":update_value_nb")],
  over=("inputs", "histories"))
p("C02", "Every fill respects the order's limits, direction, slippage and fees",
  "A filled order has a size above zero that is not above the requested size (as resolved from its size type) or the maximum size, is not below the minimum size, is a whole multiple of the size granularity when one is given, and equals the requested size whenever partial filling is not allowed and the request is finite. "
  "Its price is the order price moved against the trader by the slippage fraction (up for buys, down for sells), its fees are exactly size times price times the percentage fee plus the fixed fee, a long-only order never makes the position short, and a short-only order never makes it long. "
  "An order is filled in full whenever cash and limits permit, and otherwise as much as the available cash permits; orders that cannot be filled are reported as ignored or rejected with the reason.",
  "every account state and every accepted order", WHY + "combination of limits; tests use one limit at a time.",
  [NB], [("buy", NB + ":buy_nb"), ("sell", NB + ":sell_nb"), ("execute", NB + ":execute_order_nb")])
p("C03", "Cash never goes negative, debt stays non-negative, locked cash is honoured",
  "Starting from non-negative cash and debt, no order execution, with any size, price, fees and direction, ever leaves cash or debt negative or not a number, nor produces an undefined (NaN) position or free cash. "
  "An order with cash locking enabled never takes free cash from non-negative to negative when it opens or extends a position, and in a purely long account free cash always equals cash. "
  "A flat position carries no debt once a short position has been fully covered.",
  "every order history, of any length, from any valid starting state", WHY + "history: the invariant has to be inductive over fills.",
  [NB], [("buy", NB + ":buy_nb"), ("sell", NB + ":sell_nb"), ("execute", NB + ":execute_order_nb")], over=("inputs", "histories"))
p("C04", "Size types mean what they say: amount, value, percent and the target types",
  "A size given as value, target amount, target value or target percent is executed exactly as the equivalent plain amount (value divided by the valuation price; target minus the current position; percentage of the current value), with the sign reversed for short-only orders; a percentage is taken of the available cash when buying and of the open position (or, when shorting, of the free resources) when selling. "
  "When no limit binds, a target order leaves exactly the target position, and closing a position leaves exactly zero. "
  "The approximate order value used for ordering calls equals the resolved amount times the valuation price.",
  "every state, every size type and direction", WHY + "state and size.",
  [NB], [("resolution", NB + ":execute_order_nb"), ("approximate value", NB + ":approx_order_value_nb"),
         ("close", NB + ":close_position_nb"), ("order", NB + ":order_nb"), ("infinite price", NB + ":replace_inf_price_nb")])
p("C05", "Conflicting and opposite signals resolve by the stated mode, for every position",
  "When a long entry, long exit, short entry and short exit arrive together, the outcome is at most one action per direction, decided only by the current position and the documented modes (entry, exit, adjacent, opposite, ignore) for entry/exit conflicts and for direction conflicts. "
  "An opposite entry does exactly what its mode says (ignore, close, close and reduce, reverse, reverse and reduce). "
  "The order derived from the surviving signal has the side and direction of that signal, opens or closes the whole position unless accumulation is on, and is a no-order when nothing survives.",
  "all 16 signal combinations, all positions, all modes, all sizes", WHY + "combination: the tests enumerate a few rows.",
  [NB], [("entry/exit conflict", NB + ":resolve_signal_conflict_nb"), ("direction conflict", NB + ":resolve_dir_conflict_nb"),
         ("opposite entry", NB + ":resolve_opposite_entry_nb"), ("order", NB + ":signals_to_size_nb")])
p("C06", "Stop loss and take profit trigger exactly at their threshold and price",
  "A stop of an open position is reported hit in a bar exactly when the bar's low (stop below the price) or high (stop above it) reaches initial price times one minus or plus the stop fraction, and the reported price is the stop price, or the open when the bar opened beyond it. "
  "A trailing stop is measured from the best price since entry, and the trailing reference only ever moves in the position's favour. "
  "A stop that was not hit produces no exit signal, a hit stop exits according to the exit mode, and the resulting execution price and slippage follow the chosen stop-exit-price mode.",
  "every position, stop fraction, bar and mode", WHY + "bar; they sample a few.",
  [NB], [("stop price", NB + ":get_stop_price_nb"), ("execution", NB + ":resolve_stop_price_and_slippage_nb"),
         ("signal", NB + ":generate_stop_signal_nb"), ("update", NB + ":should_update_stop_nb"),
         ("trailing", NB + ":simulate_from_signals_nb")])
p("C07", "Simulation processes orders bar by bar, without look-ahead, and in sequence",
  "Simulating from arrays of orders or signals produces order records numbered consecutively from zero, at most one per column and bar, in non-decreasing bar order within each column, with every record inside the simulated shape, and each record is what executing that element's order on the state left by the previous orders yields. "
  "An infinite price means the current close, a negative infinite one the previous close, and a NaN order does nothing. "
  "Records up to a bar depend only on inputs up to that bar, and the records of one column (or of one cash-sharing group) do not depend on the data of other groups.",
  "every input array shape, every price history, every grouping", "Tests pin a few outputs on five-bar inputs; look-ahead and cross-talk are two-run properties quantified over all inputs.",
  [NB], [("orders simulator", NB + ":simulate_from_orders_nb"), ("signals simulator", NB + ":simulate_from_signals_nb"),
         ("order simulation", NB + ":simulate_nb"), ("records", NB + ":process_order_nb")], over=("inputs", "histories"))
p("C08", "Call sequences are permutations and automatic ordering sells before buying",
  "Every generated call sequence visits each column of each group exactly once per bar, in the default, reversed or shuffled order asked for. "
  "With automatic ordering, the columns of a cash-sharing group are processed in ascending order of the approximate value of their orders (NaN last), which is a permutation of the group that releases cash before spending it. "
  "The sort keeps the pairing of values and indices and keeps equal values in their original order.",
  "every grouping and every vector of order values", WHY + "vector.",
  [NB, "vectorbt/utils/array_.py"], [("sort", "vectorbt/utils/array_.py:insert_argsort_nb"), ("build", NB + ":build_call_seq_nb"),
         ("build (numpy)", NB + ":build_call_seq"), ("sort call sequence", NB + ":sort_call_seq_out_nb")])
p("C09", "Assets and cash rebuilt from order records equal the simulated state",
  "Replaying the order records gives back the asset holdings, cash flow, cash balance and free cash that the simulation itself went through, bar by bar, for every column and group. "
  "The signed size of each record decomposes exactly into the part that changes the long side and the part that changes the short side, and direction-filtered flows add up to the total flow. "
  "Assets are the running sum of the asset flow and cash is initial cash plus the running sum of the cash flow.",
  "every sequence of filled orders", WHY + "sequence of fills.",
  [NB, "vectorbt/portfolio/base.py"], [("asset flow", NB + ":asset_flow_nb"), ("assets", NB + ":assets_nb"), ("free cash", NB + ":get_free_cash_diff_nb"),
         ("cash flow", NB + ":cash_flow_nb"), ("cash", NB + ":cash_nb"), ("long/short split", NB + ":get_long_size_nb")], over=("inputs", "histories"))
p("C10", "Trades and positions conserve size, fees and profit of the orders behind them",
  "Splitting the order stream of a column into trades and positions loses and invents nothing: the entry sizes and exit sizes of the trades match the orders' sizes, all order fees are distributed exactly once, and the trades' profit sums to cash flow plus the value of what is still open. "
  "Each trade's profit is exit value minus entry value (reversed for shorts) minus its fees, and its return is the profit over the entry value. "
  "Trades never mix directions, an entry never comes after its exit, only the last trade or position of a column may be open, and positions aggregate exactly the trades that belong to them.",
  "every valid order stream", WHY + "order stream (reversals, partial exits, accumulated entries in any order).",
  [NB], [("trade stats", NB + ":get_trade_stats_nb"), ("exit trades", NB + ":get_exit_trades_nb"), ("entry trades", NB + ":get_entry_trades_nb"),
         ("positions", NB + ":get_positions_nb"), ("open stats", NB + ":update_open_pos_stats_nb"), ("position record", NB + ":update_pos_record_nb")], over=("inputs", "histories"))
p("C11", "Portfolio value, profit and returns follow from cash, assets and price",
  "At every bar portfolio value is cash plus asset value, asset value is holdings times price (zero when nothing is held), total profit is final minus initial value, and returns are value changes over the preceding value. "
  "With cash sharing, group cash, asset value and value equal the group's cash plus the sums over its columns. "
  "Gross exposure, total return and the market benchmark are the documented ratios of these series.",
  "every price series, order history, grouping", WHY + "history and grouping.",
  [NB, "vectorbt/portfolio/base.py"], [("asset value", NB + ":asset_value_nb"), ("value", NB + ":value_nb"), ("total profit", NB + ":total_profit_nb"),
         ("returns", NB + ":returns_nb"), ("exposure", NB + ":gross_exposure_nb"), ("market value", NB + ":market_value_nb"), ("groups", NB + ":sum_grouped_nb")])
p("C12", "Generated and cleaned entries and exits alternate and stay where allowed",
  "Cleaning entries and exits keeps a subset of them in which an entry and an exit never coincide and strictly alternate, keeps the first eligible signal of each run, and leaves an already clean pair unchanged. "
  "Signals generated after other signals lie strictly after the signal that triggers them (or not before it when waiting is zero), before the next one when asked to stop there, and only where the choice function said so; generated entries and exits alternate. "
  "Fixed-distance and probability generators place signals only inside the requested range and with the requested distance or count.",
  "every signal mask and every choice function", WHY + "mask.",
  ["vectorbt/signals/nb.py"], [("cleaning", "vectorbt/signals/nb.py:clean_enex_1d_nb"), ("generation", "vectorbt/signals/nb.py:generate_nb"),
         ("exits", "vectorbt/signals/nb.py:generate_ex_nb"), ("entries and exits", "vectorbt/signals/nb.py:generate_enex_nb")])
p("C13", "Stop-signal generators fire at the first bar that reaches the stop",
  "Given an entry, a stop-based exit generator marks the first bar after the entry (or every one, when not picking the first) whose price reaches the entry price moved by the stop fraction, and none before it; a NaN stop never fires. "
  "With trailing, the reference is the best price seen from the entry up to the bar examined. "
  "The bar-based generator reports the stop type that was hit and a price between the stop level and the bar's range, and no bar without a hit is marked.",
  "every price series, stop array and entry", WHY + "price series.",
  ["vectorbt/signals/nb.py"], [("price stop", "vectorbt/signals/nb.py:stop_choice_nb"), ("bar stop", "vectorbt/signals/nb.py:ohlc_stop_choice_nb")])
p("C14", "Signal ranges, ranks and positions follow from the mask alone",
  "Ranges between signals start and end at signals, are ordered, and cover exactly the pairs that the chosen rule (next signal, next of the other mask, consecutive True or False partitions) defines. "
  "The rank of a signal within its partition starts at zero, grows by one with each True of it, restarts as the reset signals say, and is minus one where no signal is. "
  "The n-th signal lookup returns the position of the n-th True (from either end) or minus one, and the average index is the mean of the True positions.",
  "every boolean mask", WHY + "mask.",
  ["vectorbt/signals/nb.py"], [("between", "vectorbt/signals/nb.py:between_ranges_nb"), ("between two", "vectorbt/signals/nb.py:between_two_ranges_nb"),
        ("partitions", "vectorbt/signals/nb.py:partition_ranges_nb"), ("rank", "vectorbt/signals/nb.py:rank_1d_nb"), ("nth", "vectorbt/signals/nb.py:nth_index_1d_nb")])
p("C15", "Rolling, expanding and exponential windows see exactly their window",
  "Each rolling or expanding statistic (mean, standard deviation, minimum, maximum) at a bar equals that statistic of the non-NaN values among the last `window` values (all values so far when expanding) and is NaN exactly when fewer than the required minimum are present. "
  "Exponential averages and deviations equal the recursive definition over past values only. "
  "No value after the bar, outside the window or in another column has any influence.",
  "every series, window, minimum period", WHY + "series and window, and incremental updates accumulate state over the whole series.",
  ["vectorbt/generic/nb.py"], [("mean", "vectorbt/generic/nb.py:rolling_mean_1d_nb"), ("std", "vectorbt/generic/nb.py:rolling_std_1d_nb"),
        ("min", "vectorbt/generic/nb.py:rolling_min_1d_nb"), ("max", "vectorbt/generic/nb.py:rolling_max_1d_nb"), ("ewm", "vectorbt/generic/nb.py:ewm_mean_1d_nb"),
        ("expanding", "vectorbt/generic/nb.py:expanding_min_1d_nb")])
p("C16", "Shifts, fills, differences, reductions and crossings are exact and NaN-aware",
  "Shifting, differencing, percentage change, cumulative sums and products, and forward or backward filling produce at each position exactly the value their definition names, treat NaN as documented, and keep the shape. "
  "Reductions (sum, mean, min, max, standard deviation, count, first and last indices) equal the reduction of the column's non-NaN values. "
  "A crossing is reported at a bar exactly when the first series came above the second exactly the required number of bars ago (zero by default) and stayed above, having been strictly below it before that, with no missing value in between.",
  "every array", WHY + "array.",
  ["vectorbt/generic/nb.py"], [("shift", "vectorbt/generic/nb.py:fshift_1d_nb"), ("fill", "vectorbt/generic/nb.py:ffill_1d_nb"), ("diff", "vectorbt/generic/nb.py:diff_1d_nb"),
        ("nan reductions", "vectorbt/generic/nb.py:nansum_nb"), ("crossing", "vectorbt/generic/nb.py:crossed_above_1d_nb")])
p("C17", "Range and drawdown records partition the series as defined",
  "Range records of a series are exactly its maximal runs of valid values, in order, with correct start and end, and only a run that reaches the last bar is open. "
  "Drawdown records start at the peak, have the lowest value after it as valley, end at the first bar that reaches the peak again, and are active exactly when that has not happened by the end; every decline below a running peak is covered by exactly one record. "
  "Durations, coverage and drawdown percentages computed from the records equal those of the underlying bars.",
  "every series", WHY + "series.",
  ["vectorbt/generic/nb.py"], [("ranges", "vectorbt/generic/nb.py:find_ranges_nb"), ("drawdowns", "vectorbt/generic/nb.py:get_drawdowns_nb"),
        ("duration", "vectorbt/generic/nb.py:range_duration_nb"), ("coverage", "vectorbt/generic/nb.py:range_coverage_nb")])
p("C18", "Returns and risk metrics equal their definition on every series",
  "Simple returns are value over previous value minus one, cumulative returns compound them, and total return is the last cumulative value, so that compounding the returns of a positive value series reproduces it. "
  "Maximum drawdown is the largest relative fall from a running maximum and lies between minus one and zero for non-negative values. "
  "Annualised return, volatility, Sharpe, Sortino, Calmar, omega, alpha, beta and the tail metrics equal their documented formula, and the rolling versions equal the metric of each window.",
  "every return series", WHY + "series.",
  ["vectorbt/returns/nb.py"], [("returns", "vectorbt/returns/nb.py:get_return_nb"), ("cumulative", "vectorbt/returns/nb.py:cum_returns_1d_nb"),
        ("drawdown", "vectorbt/returns/nb.py:max_drawdown_1d_nb"), ("ratios", "vectorbt/returns/nb.py:sharpe_ratio_1d_nb")])
p("C19", "Indicators equal their definition and never look ahead",
  "Moving averages, Bollinger bands, RSI, stochastic, MACD, ATR and OBV equal their documented formulas bar by bar, with leading NaN exactly where the window is incomplete. "
  "Bands are symmetric around the average, RSI and the stochastic lie between 0 and 100, and true range is never smaller than the bar's range. "
  "Values up to a bar depend only on prices up to that bar, and cached and uncached computation agree.",
  "every price series and parameter set", WHY + "series and parameter.",
  ["vectorbt/indicators/nb.py"], [("moving average", "vectorbt/indicators/nb.py:ma_nb"), ("bollinger", "vectorbt/indicators/nb.py:bb_apply_nb"),
        ("rsi", "vectorbt/indicators/nb.py:rsi_apply_nb"), ("stochastic", "vectorbt/indicators/nb.py:stoch_apply_nb"), ("macd", "vectorbt/indicators/nb.py:macd_apply_nb"),
        ("atr", "vectorbt/indicators/nb.py:true_range_nb"), ("obv", "vectorbt/indicators/nb.py:obv_custom_nb")])
p("C20", "Look-ahead labels describe exactly the stated future window",
  "Future mean, standard deviation, minimum and maximum labels at a bar equal that statistic of the following window (starting after the wait), and are NaN where that window does not fit. "
  "Local-extrema labels mark alternating peaks and valleys at which price moved by at least the positive or negative threshold, and trend labels (binary, with or without saturation, continuous) between two extrema have the sign and value that the enclosing move defines. "
  "Fixed-horizon labels are the relative change to the price that many bars ahead, and the breakout label has the sign of the first threshold reached.",
  "every price series, window and threshold", WHY + "series.",
  ["vectorbt/labels/nb.py"], [("future windows", "vectorbt/labels/nb.py:future_mean_apply_nb"), ("extrema", "vectorbt/labels/nb.py:local_extrema_apply_nb"),
        ("trend", "vectorbt/labels/nb.py:bn_trend_labels_nb"), ("breakout", "vectorbt/labels/nb.py:breakout_labels_nb")])
p("C21", "Record maps select, reduce and expand exactly the records of each column",
  "The column range and column map of a record array list, for each column, exactly the positions of its records in order, and selecting columns through either gives those records with the column renumbered and nothing else changed. "
  "Reducing or mapping records per column applies the function to exactly that column's values and yields the fill value for empty columns. "
  "Top/bottom-n masks mark exactly the n largest or smallest of each column, and expanding mapped values to a matrix puts every value at its row and column.",
  "every record array and column selection", WHY + "record array.",
  ["vectorbt/records/nb.py", "vectorbt/records/col_mapper.py"], [("range", "vectorbt/records/nb.py:col_range_nb"), ("map", "vectorbt/records/nb.py:col_map_nb"),
        ("select by range", "vectorbt/records/nb.py:record_col_range_select_nb"), ("select by map", "vectorbt/records/nb.py:record_col_map_select_nb"),
        ("reduce", "vectorbt/records/nb.py:reduce_mapped_nb"), ("expand", "vectorbt/records/nb.py:expand_mapped_nb")])
p("C22", "Flexible indexing reads the element that broadcasting would put there",
  "Reading an element of a scalar, one-dimensional or two-dimensional argument by row and column gives exactly the element that broadcasting this argument to the full shape would hold there, whichever of its axes have length one. "
  "Broadcasting several arguments together yields arrays of one common shape with the same elements, and the flexible and the fully broadcast form of the arguments lead to the same result. "
  "The index of the broadcast result keeps the labels of the objects broadcast.",
  "every shape combination", WHY + "shape combination.",
  ["vectorbt/base/reshape_fns.py"], [("choose", "vectorbt/base/reshape_fns.py:flex_choose_i_and_col_nb"), ("select", "vectorbt/base/reshape_fns.py:flex_select_nb"),
        ("auto select", "vectorbt/base/reshape_fns.py:flex_select_auto_nb"), ("broadcast", "vectorbt/base/reshape_fns.py:broadcast")])
p("C23", "Grouped operations use exactly the columns of each group",
  "Group lengths add up to the number of columns, list the sizes of the consecutive groups in order, and unsorted or incoherent groups are refused. "
  "Per-group reductions and transformations depend only on the columns of their group and equal the same operation on the group alone. "
  "Applying a function per column, per row or per group calls it on exactly that slice and puts its result in exactly that place.",
  "every grouping and matrix", WHY + "grouping.",
  ["vectorbt/base/column_grouper.py", "vectorbt/generic/nb.py"], [("group lengths", "vectorbt/base/column_grouper.py:get_group_lens_nb"), ("group reduce", "vectorbt/generic/nb.py:groupby_reduce_grouped_nb"),
        ("sum grouped", NB + ":sum_grouped_nb"), ("flat reduce", "vectorbt/generic/nb.py:flat_reduce_grouped_nb")])
p("C24", "The Numba and the Rust engine return the same results",
  "For every function that has both implementations, choosing either engine yields the same result on the same input.",
  "every input of every dispatched function", "The Rust extension is not built in the tests, so no test compares them here.",
  ["rust/src", "vectorbt/portfolio/dispatch.py"], [("dispatch", "vectorbt/_engine.py")], over=("inputs", "configurations"))
p("C25", "Random signal generators draw uniformly among the allowed positions",
  "Random entry and exit generators choose each allowed position with equal probability (or with the given probability), and equal seeds give equal draws.",
  "every seed and size", "A distribution is not observable in single draws.",
  ["vectorbt/signals/nb.py"], [("random choice", "vectorbt/signals/nb.py:rand_choice_nb")], over=("inputs", "configurations"))
p("C26", "Indexing and caching on portfolio and indicator objects never change results",
  "Selecting columns or groups of a portfolio, records or indicator object and then computing gives the same as computing and then selecting, and cached attributes always equal the recomputed ones.",
  "every attribute, indexing operation and cache state", "Needs every attribute crossed with every selection and cache history.",
  ["vectorbt/base/indexing.py", "vectorbt/utils/decorators.py"], [("indexing", "vectorbt/base/indexing.py"), ("caching", "vectorbt/utils/decorators.py")], over=("programs", "histories"))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
