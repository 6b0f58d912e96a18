prop("P01", "Every calendar's business days follow its market's holiday rules",
     "For every supported country calendar and market and every date from 1901 to 2199, a date is a business day exactly when the market's rules (weekends, fixed and moving feasts, substitutions, one-off closures and the listed lunar and religious holidays) say so. Asking about a holiday or a weekend gives the matching answer, and the Western and Orthodox Easter Mondays underlying the rules are the computed ones.",
     ["inputs"], "every calendar and market, every date of 1901..2199",
     "The tests look at single years (mostly 2023) of each calendar; the rules hold or fail per year, weekday and century.",
     ["src/time/calendars.rs", "src/time/calendars/*.rs"],
     [("one is_business_day per calendar", "src/time/calendars/*.rs"), ("tables of Easter Mondays", "src/time/calendars.rs")],
     ["Calendar::is_business_day", "Calendar::is_holiday", "Calendar::is_weekend", "Calendar::easter_monday"],
     "Exhaustive over dates: all 76 calendars and markets, all days of 1901-2199, against rules written independently in TLA+ (Easter, equinox, Hebrew calendar computed); holidays with no arithmetic rule are a table cross-checked with computed new moons.")
prop("P02", "Rolling a date under a business-day convention",
     "Adjusting a date gives the business day its convention names: the next or the previous one, the next (previous) one unless that leaves the month, or the half month, and otherwise the other direction, or the nearest one with ties later; a business day stays where it is, and an unadjusted date never moves. This holds on every calendar, whatever its pattern of holidays.",
     ["inputs", "configurations"], "every calendar, date and convention, around month ends, half months and long closures",
     "The tests adjust a handful of dates on one calendar; the conventions differ only at particular patterns of closed days around month ends and the 15th.",
     ["src/time/calendars.rs", "src/time/businessdayconvention.rs"], [("Calendar::adjust", "src/time/calendars.rs")],
     ["Calendar::adjust"],
     "Every pattern of closed days in a 9-day (thorough: 12-day) window over month ends and mid-months for every date and convention, long closures, and all real calendars on sampled dates.")
prop("P03", "Advancing a date by a period on a calendar",
     "Advancing by days counts that many business days forwards or backwards (zero days adjusts); weeks, months, years and the short tenors move by the calendar and then adjust by the convention, keeping the day of the month where it exists. With the end-of-month flag, a date at its month's end lands at the end of the target month and any other date is unaffected by the flag.",
     ["inputs", "configurations"], "every calendar, date, period, convention and end-of-month flag",
     "The tests advance a few dates on one or two calendars.",
     ["src/time/calendars.rs", "src/time/period.rs"], [("Calendar::advance", "src/time/calendars.rs")],
     ["Calendar::advance"],
     "Thousands of randomly patterned and real calendars, each asked under all 7 conventions and 3 flag settings, with month ends over-represented.")
prop("P04", "Counting business days and finding month ends",
     "The number of business days between two dates is the number of business days in the interval, each end included or left out exactly as asked (by default the first is in and the last out), and swapping the dates changes only its sign. The end of a month is its last business day, and its last day is the last calendar day.",
     ["inputs", "configurations"], "every calendar, pair of dates (equal and reversed ones included) and choice of ends",
     "One test counts one month on one calendar, without the flags.",
     ["src/time/calendars.rs"], [("Calendar::business_days_between", "src/time/calendars.rs"), ("Calendar::end_of_month", "src/time/calendars.rs")],
     ["Calendar::business_days_between", "Calendar::end_of_month", "Calendar::last_day_of_month"],
     "Every pattern of closed days in a small window with every pair of dates and all flag settings, and all real calendars on sampled intervals.")
prop("P05", "A joint calendar is closed when any member is; pairs join both homes",
     "A joint calendar, nested or serialised or not, is open exactly on the days on which all of its members are open. A currency pair's calendar is the joint one of its two currencies' home calendars.",
     ["inputs", "configurations"], "every set of calendars, every currency pair, every date",
     "The tests check a few days of one two-member calendar.",
     ["src/time/calendars/jointcalendar.rs", "src/derivatives/forex/basic.rs"], [("JointCalendar::is_business_day", "src/time/calendars/jointcalendar.rs"), ("FXUnderlying::calendar", "src/derivatives/forex/basic.rs")],
     ["Calendar::is_business_day", "FXUnderlying::calendar"],
     "Random member sets over whole years; all 60 pairs on every day of sampled years against the calendar rules of the specification.")
prop("P06", "Day counts and year fractions follow their conventions",
     "For every day-count convention and market variant and any two dates in either order, the day count and the year fraction are those of the convention's definition (Actual/360, /364, /365 with and without leap days, /366, Actual/Actual ISDA and Euro, all 30/360 variants, 30/365, Business/252 on any calendar). Turning a year fraction back into a date recovers the date to within a day for the actual-day conventions.",
     ["inputs", "configurations"], "every pair of dates, every convention and variant, every calendar for Business/252",
     "The tests sample a few pairs per convention; the rules differ at month ends, in February, in leap years and for reversed dates.",
     ["src/time/daycounters/*.rs", "src/time/daycounters.rs"], [("DayCounters::day_count and year_fraction", "src/time/daycounters/*.rs")],
     ["DayCounters::day_count", "DayCounters::year_fraction", "DayCounters::year_fraction_to_date"],
     "All pairs of about 65 special dates and thousands of random pairs for 17 variants; Business/252 on random and real calendars; definitions written independently in TLA+.")
prop("P07", "Period arithmetic on dates",
     "Adding or subtracting a period moves a date by its days, weeks, months or years, months keeping the day of the month or the month's last day when it is shorter; multiplying a period multiplies its length and leaves the named short tenors alone. Frequencies stand for their period, and frequency and convention codes read back as what they name.",
     ["inputs"], "every date, period and multiplier",
     "The tests add each kind of period to one date.",
     ["src/time/period.rs", "src/time/frequency.rs", "src/time/businessdayconvention.rs"], [("Add, Sub, Mul for Period", "src/time/period.rs")],
     ["NaiveDate + Period", "NaiveDate - Period", "u32 * Period", "Frequency::period"],
     "Every day of 2023-2024 by several month counts and tens of thousands of random dates and periods from 1905 to 2150.")
prop("P08", "IMM dates and codes",
     "IMM dates are the third Wednesdays, of the quarter months only in the main cycle; the next IMM date is the first one strictly after a date, and every IMM date has its month-letter and year-digit code. A string is a code exactly when it is a month letter of the cycle, in either case, and a digit, and it stands for the first matching IMM date on or after the reference date.",
     ["inputs"], "every date, reference date and string",
     "The tests use a few dates in 2023.",
     ["src/time/imm.rs"], [("IMM::next_date, IMM::date, IMM::code", "src/time/imm.rs")],
     ["IMM::is_imm_date", "IMM::next_date", "IMM::code", "IMM::date", "IMM::is_imm_code"],
     "Every day of 2016-2032 (thorough: 1910-2150), every code from random reference dates, all printable two-character strings and non-ASCII ones.")
prop("P09", "FX pair conventions and settlement dates",
     "Each currency pair has its conventional spot lag, cut-off time, forward-point scale and money-market basis, and market data at or after the cut-off belongs to the next business day. Far legs run from today (ON), tomorrow (TN) or spot by their tenor, are held at the month's last business day when on or past it and otherwise roll forward; near legs of ON, TN and SN are today, tomorrow and spot rolled forward, and no other tenor has one.",
     ["inputs", "configurations"], "every pair, valuation date, time of day, tenor and calendar",
     "The tests check a few tenors of GBPUSD and USDCAD in October 2023.",
     ["src/derivatives/forex/basic.rs", "src/time/period.rs"], [("settlement_date_with_lag, near_date_with_lag", "src/time/period.rs"), ("FXUnderlying", "src/derivatives/forex/basic.rs")],
     ["FXUnderlying::settlement_date", "FXUnderlying::near_date", "FXUnderlying::effective_valuation_date", "Period::settlement_date", "Period::near_date"],
     "All 60 pairs on sampled dates, month ends over-represented, 16 tenors and 11 times of day each, and randomly patterned calendars.")
prop("P10", "FX forward points between quoted settlement dates",
     "The forward points of a currency pair at a date are those quoted if a quote settles on it, and otherwise linear in calendar days between the settlement dates of the nearest quotes on either side, in whatever order quotes are listed. There are none on or before the valuation date, outside the quoted dates, or from fewer than two quotes.",
     ["inputs", "configurations"], "every set of quotes, valuation date, calendar and date asked",
     "The tests read one ladder of quotes on one valuation date.",
     ["src/markets/forex/quotes/forwardpoints.rs"], [("FXForwardHelper::get_forward", "src/markets/forex/quotes/forwardpoints.rs")],
     ["FXForwardHelper::get_forward"],
     "Random ladders of 0 to 12 quotes over random and real pair calendars, asked on every date near today, at and around every settlement date, and beyond.")
prop("P11", "An FX forward is worth its discounted gain over the strike",
     "The outright forward rate is spot plus the forward points in the pair's point scale. A forward's value is its direction times its notional in base currency (a quote-currency notional converts at the strike and reverses the direction) times outright minus strike, discounted on the quote currency's curve from its expiry (whenever it was traded or delivers) and paid in that currency; its delta is those units of base currency, and it has no gamma or vega. Outside the quoted dates there is no value.",
     ["inputs", "configurations"], "every pair, market, trade, notional currency and direction",
     "The tests value a few trades in one market, mostly long the base currency.",
     ["src/derivatives/forex/forward.rs", "src/markets/forex/market_context.rs"], [("FXForward::mtm, delta", "src/derivatives/forex/forward.rs"), ("FxMarketContext::forward_at", "src/markets/forex/market_context.rs")],
     ["FXForward::mtm", "FXForward::delta", "FXForward::gamma", "FXForward::vega", "FxMarketContext::forward_at", "FxMarketContext::rate_d", "FxMarketContext::discount_f"],
     "Random markets and trades over all 60 pairs; the value is computed from the definition in TLA+.")
prop("P12", "Reading a yield curve",
     "The zero rate at a date interpolates linearly in days between the visible pillars around the following day, is the first visible pillar's before it and the last one's beyond it; hidden pillars take no part. Discount factors are continuously compounded from the zero rate over Actual/365 from the valuation date, a parallel shift adds to the zero rate, and the forward rate between two dates is the one their discount factors imply.",
     ["inputs", "configurations"], "every curve (hidden pillars included) and date, past ones too",
     "The tests read a handful of dates inside one curve.",
     ["src/markets/termstructures/yieldcurve.rs"], [("YieldTermStructure", "src/markets/termstructures/yieldcurve.rs")],
     ["YieldTermStructure::zero_rate", "discount", "shifted_discount", "forward_rate"],
     "Random curves of 1 to 12 pillars with hidden ones, read at and around every pillar, far beyond and before the valuation date.")
prop("P13", "The curve bootstrap reproduces its quotes",
     "Stripping cash, futures and swap quotes gives one pillar per quote at its settlement and maturity, cash in order of maturity, one-week cash hidden. A cash pillar's zero rate compounds to the quoted simple rate, a futures pillar's discount factor is that of the nearest earlier pillar's rate at settlement times the quoted (convexity-adjusted) rate's, a swap is worth nothing on the curve up to its own pillar, and each pillar's discount factor is that of its zero rate.",
     ["inputs", "configurations"], "every set of quotes in order of maturity, calendar and valuation date",
     "The tests strip one market; the first futures pillar's rate in them is itself wrong (see the findings).",
     ["src/markets/termstructures/yieldcurve.rs", "src/markets/termstructures/yieldcurve/*.rs", "src/derivatives/interestrate/swap.rs"],
     [("YieldTermMarketData::get_stripped_curve", "src/markets/termstructures/yieldcurve.rs"), ("FuturesRate", "src/markets/termstructures/yieldcurve/ratehelper.rs"), ("InterestRateSwap::solve_zero_rate", "src/derivatives/interestrate/swap.rs")],
     ["YieldTermMarketData::get_stripped_curve"],
     "Random markets with positive and negative rates, duplicated maturities, irregular futures strips, one to three swaps of either direction; every quote repriced in TLA+. Domain: each cash quote accrues at least a day and futures mature after the pillars before them.")
prop("P14", "Observers of market data: who is told, when, and of what",
     "Notifying market data calls each observer attached and still alive once per attachment, in the order of attachment, until one fails, whose error is returned; observers are not kept alive by what they observe. A curve takes over its own market data's present quotes when notified, and at no other time; a volatility surface takes nothing over.",
     ["histories"], "every history of attaching, dropping, editing, failing and notifying",
     "The tests notify one observer once.",
     ["src/patterns/observer.rs", "src/markets/forex/quotes/forwardpoints.rs", "src/markets/termstructures/yieldcurve.rs", "src/markets/interestrate/volsurface.rs"],
     [("attach, notify_observers, update", "src/markets/termstructures/yieldcurve.rs")],
     ["Observable::attach", "Observable::notify_observers", "Observer::update"],
     "The state machine Observers.tla: its laws are model-checked on all small histories (two probes and a curve, two subjects, up to 2 or 3 attachments each), and TLC generates thousands of longer histories with three subjects and five observers that the real code replays, every step compared.")
prop("P15", "The schedule of a swap leg",
     "A leg starts on the valuation date advanced by its settlement days, and has one period per whole multiple of its frequency's length in its duration, each ending a multiple of that length after the start adjusted by its convention, where the next one begins. Payment and reset dates lie the given numbers of business days after the end and before the start, balances are the notional, a given schedule is used unchanged, and a swap matures with its last leg.",
     ["inputs", "configurations"], "every frequency, duration in any unit, calendar, convention and lag",
     "The tests generate a few whole-year schedules.",
     ["src/derivatives/interestrate/swap.rs"], [("InterestRateSwapLeg::generate_schedule", "src/derivatives/interestrate/swap.rs")],
     ["InterestRateSwapLeg::generate_schedule", "effective_date", "InterestRateSwap::settle_date", "InterestRateSwap::maturity_date"],
     "Random schedules in days, weeks, months and years over random and real calendars.")
prop("P16", "What an interest rate swap is worth, and its sensitivities",
     "A swap is worth the sum over its legs of direction times balance times accrual times rate times the discount factor of each payment date, fixed legs at their coupon and floating ones at the forward the curve implies over the period plus the spread, and of direction times the final balance paid on the last payment date. DV01, gamma and duration are what repricing under parallel zero-rate shifts gives; vega is zero, the value is in the first leg's currency, and a swap without legs has none.",
     ["inputs", "configurations"], "every schedule (amortising, started and irregular ones included), leg mix, curve and shift",
     "The tests price a few regular swaps with cancelling notionals on one curve.",
     ["src/derivatives/interestrate/swap.rs", "src/derivatives/interestrate/basic.rs"], [("InterestRateSwap::npv, npv_with_shift", "src/derivatives/interestrate/swap.rs")],
     ["InterestRateSwap::npv", "InterestRateSwap::mtm", "dv01", "gamma", "modified_duration", "vega"],
     "Random swaps of up to three legs, both directions, four day counts, amortising balances.")
prop("P17", "What a cap or floor is worth, and its sensitivities",
     "A cap or floor is worth direction times notional times the sum over its periods of accrual times payment discount times the normal-model price of the period's forward at the strike, with the surface's volatility at the period's start and strike and the variance up to the fixing: the period's start when looking forward, and the usual decaying volatility through the period when compounded in arrears. DV01, gamma, vega and duration are what repricing under parallel shifts gives, and nothing can be valued without volatilities.",
     ["inputs", "configurations"], "every cap and floor, surface, curve, direction and shift",
     "The tests price a few caps on a flat surface.",
     ["src/derivatives/interestrate/cap.rs"], [("CapFloor::mtm and shifted repricing", "src/derivatives/interestrate/cap.rs")],
     ["CapFloor::mtm", "dv01", "gamma", "vega", "modified_duration"],
     "Random caps and floors of both styles and directions, periods already started or accruing, surfaces of several pillars and strikes.")
prop("P18", "What an FX vanilla option is worth, and its sensitivities",
     "An option is worth its lognormal (Black) price on the outright forward, to the quote currency's discount factor and Actual/365 time to expiry, the premium per unit of notional in that notional's currency (divided by spot for a base-currency notional, by the strike for a quote-currency one), signed as paid by the buyer. Delta and gamma are the forward ones in base currency, vega is per one percent of volatility, and at zero variance they are their limits.",
     ["inputs", "configurations"], "every pair, market, option type, notional currency, direction and volatility (zero included)",
     "The tests price a few options in one market.",
     ["src/derivatives/forex/option.rs", "src/models/common/black_scholes.rs"], [("FXVanillaOption::mtm, delta, gamma, vega", "src/derivatives/forex/option.rs")],
     ["FXVanillaOption::mtm", "delta", "gamma", "vega", "black_scholes"],
     "Random markets and options over all 60 pairs, volatilities from 0 to 250%.")
prop("P19", "The FX volatility surface quoted by delta",
     "A pillar of at-the-money, call and put or risk-reversal and butterfly quotes is refused when it has not exactly one at-the-money quote, a delta outside (0, 0.5) or one without both its wings, strikes not increasing, a forward or expiry not ahead; otherwise the volatility at each quoted strike is the quoted one. Between strikes, beyond them and between expiries it follows the surface's interpolation in every direction, and strikes must be positive and expiries ahead.",
     ["inputs", "configurations"], "every set of pillars and quotes in any order, every expiry and strike",
     "The tests build a few symmetric smiles.",
     ["src/markets/forex/quotes/volsurface.rs"], [("FXVolSurface::new, volatility", "src/markets/forex/quotes/volsurface.rs")],
     ["FXVolSurface::new", "FXVolSurface::volatility"],
     "Random smiles of one to four deltas quoted either way and both, twelve kinds of flaw, strikes to three deviations out, expiries before, between and after the pillars.")
prop("P20", "The caplet volatility surface: stripping and reading it",
     "Stripping cap quotes solves, strike by strike and from the shortest to the longest, one volatility per stretch of fixings such that every quote is repriced, and fails when none can; each expiry's pillar holds every strike quoted by then at its latest volatility, in order. Reading takes the first pillar at or after the expiry, or the last one, linear in strike and flat outside.",
     ["inputs", "configurations"], "every set of quotes in any order (ragged ones included), curve, expiry and strike",
     "The tests strip a few rectangular grids.",
     ["src/markets/interestrate/volsurface.rs"], [("strip_caplet_vols, caplet_volatility", "src/markets/interestrate/volsurface.rs")],
     ["IRNormalVolSurface::rebuild", "IRNormalVolSurface::caplet_volatility"],
     "Random caps and floors on one to four strikes, priced from known volatilities, quotes shuffled and ragged; impossible prices; every quote repriced in TLA+.")
prop("P24", "Index conventions, and market contexts built from raw quotes",
     "Each known rate index has its currency, calendar, day count, convention and settlement lag. A market context built from raw quotes answers exactly as a curve, forward ladder (with the pair's own spot lag and point scale) and volatility surface built from the same quotes do: rates and discount factors on either currency's curve, outright forwards, and volatilities.",
     ["inputs", "configurations"], "every index; every set of raw quotes, pair and date",
     "The tests build one context for EURUSD.",
     ["src/markets/interestrate/interestrateindex.rs", "src/markets/forex/market_context.rs", "src/markets/interestrate/market_context.rs"],
     [("InterestRateIndex::from_enum", "src/markets/interestrate/interestrateindex.rs"), ("FxMarketContext::from_raw_quotes", "src/markets/forex/market_context.rs"), ("IrMarketContext::from_raw_quotes", "src/markets/interestrate/market_context.rs")],
     ["InterestRateIndex::from_enum", "FxMarketContext::forward_at, rate_d, rate_f, discount_d, discount_f, implied_vol", "IrMarketContext::rate, discount, caplet_vol"],
     "All indices on every day of two years; random raw quotes for all 60 pairs and some unsupported ones, curves and surfaces rebuilt from the quotes in TLA+.")
prop("P21", "The calibrators' optimiser (Nelder-Mead simplex search)",
     "From any start, the search tries exactly the points the Nelder-Mead rules ask for: the start moved along each axis, then reflections, expansions, contractions towards the better side and shrinks of the current simplex. It never reports worse than the best point it tried, reports the objective's value there, stops within its iteration cap, and claims convergence only when the spread of values and points is within tolerance.",
     ["inputs", "configurations"], "every objective, start, dimension, tolerance and cap",
     "The tests minimise three smooth functions; most branches, ties and flat stretches are never met.",
     ["src/math/optimize.rs"], [("nelder_mead", "src/math/optimize.rs")],
     ["nelder_mead"],
     "The search is a TLA+ state machine (Ask/Told). Its laws are model-checked under every objective with three levels; recorded searches, under all scripts of answers of a length and many real objectives, are walked point by point.")
prop("P22", "The Monte Carlo path runner: which steps, which dates, which draws",
     "For each path the runner asks the model for a fresh state, then steps it in date order from the start, stopping at every observation date and never going further than the longest step allowed, each step as long as the day count of the dates it joins and one step's end the next one's start; it reports the state the model had reached at each observation date. Paths are independent and repeat for the same seed; impossible requests are refused.",
     ["inputs", "configurations"], "every start, set of observation dates, step cap, day count and number of paths",
     "The tests run a few models on one grid and look only at moments.",
     ["src/models/common/simulation.rs"], [("MonteCarloRunner::run", "src/models/common/simulation.rs")],
     ["MonteCarloRunner::run, MonteCarloResults"],
     "The runner is a TLA+ state machine whose laws are model-checked on every small problem; recorded runs with a model that logs each call are walked call by call.")
prop("P25", "Black and Bachelier prices, vegas and implied volatilities",
     "Lognormal (Black) and normal (Bachelier) call and put prices and the normal vega are those of the closed formulas, intrinsic value at zero variance. A lognormal implied volatility is reported exactly when a volatility has the price asked for, within the tolerance, and it reprices the option; the normal distribution, density and quantile are right in both tails.",
     ["inputs"], "every forward, strike, volatility, expiry, discount factor and price, attainable or not",
     "The tests check a few points near the money.",
     ["src/models/common/black_scholes.rs", "src/models/common/bachelier.rs"],
     [("bs price and implied vol", "src/models/common/black_scholes.rs"), ("bachelier_price, bachelier_vega", "src/models/common/bachelier.rs")],
     ["bs_call_forward, bs_put_forward", "bachelier_call, bachelier_put, bachelier_vega_variance", "bs_implied_vol_tol"],
     "Random points far from the money, at it, at zero variance and at and beyond the no-arbitrage bounds.")
prop("P26", "CIR moments and Hull-White bond prices in closed form",
     "The CIR process's mean, variance, mean square root (series and its documented exponential proxy), long-run limit and Feller condition, and Hull-White's B, rate variance, integrated bond log-variance and zero-coupon bond price fitted to an initial curve, are what their defining formulas give, for slow mean reversion too.",
     ["inputs"], "every parameter set over many orders of magnitude, and every pair of times",
     "The tests check one parameter set each (a sign error in the bond log-variance went unseen).",
     ["src/models/common/cir.rs", "src/models/interestrate/hull_white.rs"],
     [("CirProcess", "src/models/common/cir.rs"), ("HullWhite1F", "src/models/interestrate/hull_white.rs")],
     ["CirProcess moments", "HullWhite b, variance, bond log-variance, zero bond"],
     "Random parameters over many orders of magnitude, against series and integrals evaluated in TLA+.")
prop("P27", "SABR: Hagan's smile, parameter schedules and effective parameters",
     "Hagan's lognormal volatility is his expansion at every strike, through the money and at every beta in [0, 1]; invalid parameters are refused. A piecewise-constant parameter is the value of the segment its time falls in, the end of each segment included, and is refused outside its segments. The effective vol of vol, volatility and correlation of time-dependent SABR match the moments of the schedules they replace; schedules that do not line up are refused.",
     ["inputs", "configurations"], "every admissible parameter set, forward, strike, expiry and schedule",
     "The tests compare a few strikes with published values and two-segment schedules.",
     ["src/models/forex/sabr.rs", "src/models/forex/sabr_effective.rs"],
     [("hagan_implied_vol", "src/models/forex/sabr.rs"), ("PiecewiseConstant", "src/models/forex/sabr_effective.rs"), ("effective_*", "src/models/forex/sabr_effective.rs")],
     ["SabrParams::new, hagan_implied_vol, hagan_atm_vol", "PiecewiseConstant::at", "effective_vol_vol, effective_term_structure, effective_correlation"],
     "Random parameters including beta 0 and 1, correlations near one, strikes next to the forward; schedules of one to six segments read at and around every knot.")
prop("P28", "Calibration searches the documented coordinates for the least squared misses",
     "Calibrating SABR, FX Heston-Hull-White, FX-FMM or FX-HLMM to a smile is a Nelder-Mead search, within the budget given, over unbounded coordinates of the free parameters (positive ones by softplus, mean reversion above its floor, vol of variance below its cap where there is one, correlations by tanh) for the least sum of squared differences between model and market volatilities, a point without a volatility costing a fixed penalty; the result is the best point's parameters with everything not calibrated left as it was, its root mean square error and the search's own account. A time-dependent SABR surface is each pillar's smile alone, then schedules whose effective parameters at every pillar are that smile's, as far as they are reachable. A smile strip is the surface's own volatilities. Impossible inputs are refused.",
     ["inputs", "configurations"], "every start, quote set, floor, cap, budget and tolerance of the search, pillar set and strike list",
     "The tests recover one parameter set per model from its own quotes, within wide tolerances.",
     ["src/models/common/calibration.rs", "src/models/forex/sabr_calibrator.rs", "src/models/forex/sabr_time_dependent_calibrator.rs", "src/models/forex/fx_hhw_calibrator.rs", "src/models/forex/fx_fmm_calibrator.rs", "src/models/forex/fx_hlmm_calibrator.rs", "src/models/forex/market_data.rs"],
     [("Calibration::calibrate", "src/models/common/calibration.rs"), ("calibrate", "src/models/forex/sabr_calibrator.rs"), ("calibrate_time_dependent", "src/models/forex/sabr_time_dependent_calibrator.rs"), ("calibrate, calibrate_bounded, price_call, model_implied_vols", "src/models/forex/fx_hhw_calibrator.rs"), ("calibrate", "src/models/forex/fx_fmm_calibrator.rs"), ("calibrate", "src/models/forex/fx_hlmm_calibrator.rs"), ("smile_strip", "src/models/forex/market_data.rs")],
     ["calibrate, calibrate_bounded, SmileCalibrators", "model_implied_vols, price_call, targets_from_grid", "calibrate_time_dependent", "smile_strip"],
     "Random smiles, starts (also on the edge of what the search may reach) and budgets; TLC replays every search from the specification's simplex rules with the values each point had, and works the time-dependent moments out at every pillar.")
prop("P23", "What is written as a document reads back the same",
     "Every calendar (joint ones nested to any depth included), day counter, convention, period, currency pair, index, quote, curve and instrument that can be serialised reads back, from any layout and any member order of its JSON, as a value that behaves the same - closes on the same days, counts the same, has the same terms - and that has the same document again, any number of times. Different values of a kind have different documents. A document of an unknown calendar, day counter, market or word, or of the wrong shape, is refused.",
     ["inputs", "configurations", "histories"], "every serialisable value, nesting and number of round trips",
     "The tests serialise a handful of values and compare text.",
     ["src/time/calendars.rs", "src/time/daycounters.rs", "src/derivatives/basic.rs", "src/derivatives/interestrate/swap.rs", "src/derivatives/interestrate/cap.rs", "src/markets/termstructures/yieldcurve.rs"],
     [("Calendar (typetag)", "src/time/calendars.rs"), ("DayCounters (typetag)", "src/time/daycounters.rs"), ("Serialize/Deserialize derives", "src/derivatives/interestrate/swap.rs"), ("YieldTermStructure", "src/markets/termstructures/yieldcurve.rs")],
     ["serde_json::to_string, to_value, from_str, from_value of each type", "Calendar::is_business_day, DayCounters::day_count of what was read"],
     "All calendars, markets, counters and words, random joint calendars and random instruments, three round trips each in random layouts; TLC decides what each calendar and counter read back must mean.")
prop("P29", "How each simulated model moves in one step, and over a path",
     "Brownian, geometric, square-root, Hull-White, SABR (constant, time-dependent, stochastic-local), FX Heston-Hull-White and foreign-stock models step by the documented Euler schemes: increments scale with the square root of the step and are correlated as given; negative variances and forwards are truncated; the foreign rate and stock carry their quanto drift. Simulating repeats the step from the initial state, paths independent, the same seed giving the same paths; invalid parameters are refused.",
     ["inputs", "configurations", "histories"], "every parameter set, state (negative variance and zero forward included), time, step and seed",
     "The tests compare Monte Carlo means of a few parameter sets with wide tolerances.",
     ["src/models/common/simulation.rs", "src/models/common/cir.rs", "src/models/interestrate/hull_white.rs", "src/models/forex/sabr.rs", "src/models/forex/sabr_time_dependent.rs", "src/models/forex/sabr_slv.rs", "src/models/forex/fx_hhw.rs", "src/models/forex/fx_hhw_stock.rs"],
     [("SimulationModel::step", "src/models/common/simulation.rs"), ("step_with_noise, simulate", "src/models/forex/sabr.rs"), ("TimeDependentSabrSimulator", "src/models/forex/sabr_time_dependent.rs"), ("TimeDependentSabrSlvSimulator::simulate", "src/models/forex/sabr_slv.rs"), ("FxHhwSimulator, FxHhwStockSimulator", "src/models/forex/fx_hhw.rs")],
     ["SimulationModel::initial_state, step", "step_with_noise", "simulate", "reduces_to_constant", "constructors"],
     "The transition rules are the specification's; TLC checks by quadrature over all draws that they are arbitrage-free (martingales, quanto drifts, covariances), and replays thousands of recorded steps, starts and simulations with the draws each took.")

prop("P32", "Forward market model: grid, decay, volatilities and bond prices",
     "On every tenor grid the rate now fixing, the linear decay, and the volatilities (constant, stepped, short-rate-equivalent, displaced) are as documented; any bond price from any path state follows the front-stub, chain and back-stub decomposition, a bond due now is worth 1, bonds past the tenor's end or in the past are refused, and the bank account compounds the fixings. Ill-formed tenors, correlations, vols, displacements and schedules are refused.",
     ["inputs", "configurations"], "every tenor, rate set, schedule, curve, path state and maturity, on, just before and just after each tenor date",
     "The tests price a few bonds on one three-period tenor.",
     ["src/models/interestrate/fmm.rs"],
     [("FmmTenor, LinearDecay, VolSchedule", "src/models/interestrate/fmm.rs"), ("bond_price, bank_account", "src/models/interestrate/fmm.rs"), ("Fmm::new, with_betas, with_vol_schedule", "src/models/interestrate/fmm.rs")],
     ["eta, tau, gamma, big_g", "sigma_at, displacement_level, adapted_vol", "back_stub_forward_bond, front_stub_bond, bond_price, bank_account", "constructors"],
     "Bond and account formulas are the specification's; TLC checks by quadrature that they leave no arbitrage together with P34's transition rules, and compares recorded calls on thousands of random models and states.")

prop("P33", "FX term-rate hybrids: coefficients of the forward's variance, and validation",
     "For the Libor and forward-market FX hybrids, the frozen-rate coefficients, both sides' variance rates over the rates still alive, and the cross term with square roots of variances at their means are as documented for every parameter set, time and starting rate; the rates alive at a time are as defined; and parameter sets with a wrong shape, sign or correlation are refused, sound ones accepted.",
     ["inputs", "configurations"], "every tenor, parameter set, time and first live rate, and every single fault in a parameter set",
     "The tests check one tenor and a handful of invalid parameter sets.",
     ["src/models/forex/fx_hlmm.rs", "src/models/forex/fx_fmm.rs"],
     [("compute_a_d, compute_a_f, compute_f_linearised", "src/models/forex/fx_hlmm.rs"), ("psi_at, compute_a_d, compute_a_f, compute_f_linearised", "src/models/forex/fx_fmm.rs"), ("validate", "src/models/forex/fx_fmm.rs"), ("LiborTenor::m, active", "src/models/forex/fx_hlmm.rs")],
     ["LiborTenor::new, tau, m, active", "psi, psi_at", "compute_a_d, compute_a_f, compute_f_linearised", "validate"],
     "The coefficients are written as variances of correlated sums in the specification; TLC compares recorded calls, and decides acceptance for parameter sets with at most one fault.")

prop("P34", "Forward market simulators: no arbitrage, fixings, and bond state along a path",
     "Each step of the FMM and FX-FMM simulators moves the rates still alive by the documented drift and correlated noise, freezes fixed ones, integrates each rate's variance up to its end, tracks the current period's noise, and records rate and variance as each period starts; the exchange rate and its truncated variance follow their scheme, and the foreign side carries the quanto shift. Paths repeat the step from the initial state with fresh draws; impossible correlations are refused.",
     ["inputs", "configurations", "histories"], "every model, path state, step length (across several tenor dates at once included) and seed",
     "The tests check means over a few thousand paths of one model, with wide tolerances.",
     ["src/models/interestrate/fmm.rs", "src/models/forex/fx_fmm_simulator.rs"],
     [("FmmSimulator::step", "src/models/interestrate/fmm.rs"), ("FxFmmSimulator::step", "src/models/forex/fx_fmm_simulator.rs"), ("build_joint_correlation", "src/models/forex/fx_fmm_simulator.rs")],
     ["FmmSimulator::new, initial_path, step, simulate_terminal", "FxFmmSimulator::new, step, simulate_terminal", "SimulationModel::initial_state, step"],
     "The transition rules are the specification's; TLC checks by quadrature over all draws that bonds over the bank account are martingales, at home and in the foreign measure, and that the account is free of first-order noise; recorded steps and paths are replayed with the draws they took.")

prop("P30", "Dupire local variance out of an implied-volatility grid, and its reading",
     "On every grid of at least three expiries and strikes the local variance at each node is Dupire's ratio by the grid's own finite differences, kept between 1% and 200% volatility; where the butterfly or the calendar numerator is not positive it is the quoted variance instead. Between nodes it is read bilinearly, flat outside, and the volatility is its root. Ill-formed grids and spots are refused.",
     ["inputs", "configurations"], "every grid, even or not, arbitrage-free or noisy, every pair of rates, and readings on, between and outside the nodes",
     "The tests use one flat and one linear surface on one even grid.",
     ["src/models/forex/dupire_local_vol.rs"],
     [("build", "src/models/forex/dupire_local_vol.rs"), ("DupireLocalVol::local_variance, local_vol", "src/models/forex/dupire_local_vol.rs"), ("fd_t, fd_k, fd_kk", "src/models/forex/dupire_local_vol.rs")],
     ["build", "local_variance, local_vol", "t_range, k_range", "the public variance grid"],
     "The finite differences are the specification's; TLC checks that they recover the derivative of the total variance where volatility depends on expiry alone, and judges each node of recorded surfaces with bounds that allow for the price function's 1e-10.")

prop("P31", "Characteristic functions of the FX hybrids, and COS option prices",
     "The characteristic functions of the log forward in the Heston hybrids with Gaussian, Libor and forward-market rates are those of the documented affine models at every argument and expiry, 1 at zero and the forward at -i, finite as the vol of variance vanishes and as the terms' segments meet tenor dates; requests outside the model are refused. COS prices are those of the truncated density's cosine series at every strike, on the given range or the default ten deviations.",
     ["inputs", "configurations"], "every admissible parameter set, complex argument, expiry, quadrature and truncation choice and strike",
     "The tests check one parameter set per model near the money with wide tolerances.",
     ["src/models/common/cos_pricer.rs", "src/models/forex/fx_hhw1_chf.rs", "src/models/forex/fx_hlmm1_chf.rs", "src/models/forex/fx_fmm1_chf.rs"],
     [("FxHhw1ForwardChf", "src/models/forex/fx_hhw1_chf.rs"), ("FxHlmm1ForwardChf", "src/models/forex/fx_hlmm1_chf.rs"), ("FxFmm1ForwardChf", "src/models/forex/fx_fmm1_chf.rs"), ("CosPricer", "src/models/common/cos_pricer.rs")],
     ["phi and its coefficients", "initial_log_forward", "CosPricer prices", "constructors"],
     "The affine coefficients are the specification's closed forms; TLC checks on drawn parameter sets that they solve their Riccati equations and make the forward a martingale, then compares recorded coefficients, characteristic functions and prices.")
