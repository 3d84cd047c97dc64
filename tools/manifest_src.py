TLA = "explicit TLA+ specification model-checked by TLC, bound to the code by replaying TLC's behaviours into it and trace-checking recorded runs"
NOTES = "TLA+ with TLC. Every check: (1) TLC explores the component specification exhaustively within small constants, (2) TLC's behaviours are replayed into the real code, (3) runs of the real code on seeded larger inputs are judged by TLC against the same specification. No hooks in /repo are needed: every observation is at the public API."
NOT_APPLICABLE = {}


def c(note, technique=TLA):
    return dict(technique=technique, note=note)


CHECKS = {
    "C08": c("TLC: every interval matrix (3 events x 3 bars), draw history and batch size; each history is forced on the code through its random state and the odds of every draw compared; seeded matrices up to 20 x 40 and draw-sequence frequencies. Needs draws through RandomState.choice, otherwise only counts and frequencies are judged."),
    "C09": c("TLC: every job interleaving and fit history of the partition machine, every bag/vote choice on three rows (forced on the real ensemble); seeded fit histories of four ensembles with recording members judged by TLC; odds of members' draws judged by the sequential bootstrap specification. Jobs run as threads."),
    "C06": c("TLC: every set of 3-4 events over a short time line x price-bar sets (grid, matrix, exact uniqueness); seeded sets of up to 25 events judged by TLC, uniqueness from TLC's concurrency counts."),
    "C07": c("TLC: every choice of ends and base-2 log prices of 4 rows, exact weights; decay shape invariants for seven parameters. Larger seeded sets: TLC gives the terms, the harness evaluates logarithms and sums in floating point (tolerance 1e-9)."),
    "C10": c("TLC: every sequence of 5-6 samples (gaps incl. ties, non-monotone horizons) x fold configuration x embargo; seeded data up to 40 samples, every split judged on intervals by TLC."),
    "C11": c("As C10 for kept samples and combinations; path building model-checked over every assignment of predictions, real paths recorded with a fake model and judged by TLC. Row order inside a path is not judged."),
    "C01": c("TLC: every close path (4 price levels, 5-6 bars) x factors x expiration lengths (and sides), machine = declarative first-barrier reading; code compared on sampled TLC behaviours (all of them in thorough up to 40000) and on seeded histories judged bar by bar. Events within 1e-5 of a volatility barrier are not judged."),
    "C02": c("TLC: every sequence of bar gaps (6-7 bars) for the daily reference bar, stability as an action property; the code is run afresh on prefixes and judged against one growing run of the machine. The ewm standard deviation is evaluated by the harness over the returns selected by the specification."),
    "C03": c("As C01, for returns and labels under all four metalabelling/expiration combinations, including sides of 0 and ties."),
    "C05": c("Exhaustive over all short integer series (specification and code compared on each); seeded longer series judged by TLC. Assumes dyadic values so float arithmetic is exact."),
    "C12": c("TLC: every interleaving of two clocks over 5-6 slots with warm-up values; replayed with mean, min and max at once and seen through datasets and through what models are shown; seeded multi-frame clocks judged by TLC. Undefined values form a prefix of a frame."),
    "C13": c("TLC: every pattern of defined primary/meta features and targets over 2-3 bars x 16 configurations, stage by stage; models are table-driven stand-ins, the sizer a stand-in or the package's own. Runs in which a model is shown no row are not judged."),
    "C14": c("TLC: every sequence of three calls over six kinds of data x closing models, validity flag and results as history invariants; sampled sequences and seeded longer ones run on the real trader and judged call by call. Volatility evaluated as in C02."),
    "C15": c("TLC: exact squared test statistics (order, zero at chance, sign blindness) and the grid relation for every x/step; code compared on all pairs of rows and on seeded frames. Phi is evaluated by the harness; sizes within 2e-6 of a grid tie may round either way."),
    "C16": c("TLC: every set of three (four) bets, event-driven machine = declarative open set; replayed in two orders; seeded sets with several thread counts, duplicates and missing ends judged by TLC, also through the sizer. Millisecond timestamps after 1970."),
    "C17": c("TLC: every series of 6-7 values over three levels and a gap x window pairs, crossing machine with and without filling, transformer and predictor; seeded series up to 250 bars and their prefixes judged by TLC. Dyadic values so that equal averages are equal in floating point."),
    "C18": c('TLC: every path of 7 bars over three closes with exact rational EMA, RSI and MACD (bar arrival: 5 bars x gaps), rules compared bar by bar; seeded paths up to 200 bars and prefixes: the harness evaluates the indicator formulas, TLC applies windows, conditions and warm-up. Bars within 2e-7 of a threshold may go either way.'),
    "C04": c('TLC: every series of 7 (8) bars over 3 (4) levels x window configurations, exact squared t-values as overflow-free fractions, streaming sums = centred definition; code scanned whole, by subsets and repeatedly on one object. Seeded sessions on series up to 150 bars: TLC gives the exact answer. min_sample_length >= 3; exact ties between non-constant horizons may go either way.'),
    "C20": c('TLC: every short integer series, exact SADF statistics by Gram determinants (five specifications), exact CSW suprema with tied maximisers and Chow statistics; seeded series up to 50 values, all seven models, lag counts and lists, prefixes and thread counts: TLC enumerates rows, regressors, windows and penalties, the harness evaluates the regressions (tolerance 1e-4). Windows without a regular noisy regression are not judged.'),
    "C19": c("TLC: every history of 5 (6) bars per feature, rolling sums by adding and removing terms = the window's own bars, exponential sums = weighted means, never revised; code compared with default and renamed columns beside decoys, on short and (TLC-judged) long seeded histories and prefixes. Prices are powers of two so that logarithms are exact; z-scores of windows without variance are not judged."),
    "C22": c("TLC: every request over nine library functions (series named or not, renamings, keywords, right and wrong) x frames, and every history of two (three) creations and the calls after them; values compared with the library function evaluated on the specification's binding. Seeded histories over every function of the library, bound by TLC. The library's own description is the reference for parameter order; settings a function does not look at are not judged."),
    "C21": c("TLC: which rows of which answers must agree, shown exact against ideal answers over every pair (triple) of calls; TLC's histories and seeded ones of up to 10 calls on up to 4 objects (families of data sharing prefixes, cuts, unused columns varied, copies, spoiled answers, reused frames) run on 45 transformers, predictors, labellers and tests; TLC decides whether the answers agree. Values are compared up to rounding."),
    "C23": c("TLC: every union and pipeline (and pipelines in unions) of learning and stateless members x every history of two (four) calls over two data sets with and without weights, algebraic laws (members side by side, flattening, row and column counts) as invariants; replayed on the real classes with recording members under five kinds of index; seeded deeper compositions answered by TLC. Column labels of a union's frame are not judged."),
    "C24": c("TLC: twelve kinds of objects x every request odd in at most two (three) facts x histories of two requests; each is answered, refused or free, and refusals change nothing (action property); every history put to the real classes and judged by TLC, answers after refusals compared with the history without them; longer seeded histories. Any exception is a refusal. One negative barrier factor, equal fast and slow periods and repeated times in the return weights are not judged."),
    "C25": c("TLC: the machines of C01, C05, C06, C10, C16 and C17 composed into one (Flow.tla), every path of 7 (9) bars over two closes x parameters, properties across stages as invariants; the real components chained on each path, every hand-over compared. Seeded flows up to 60 (90) bars: TLC says what every stage hands on. Metalabelling with fixed barriers; weights evaluated in floating point from the specification's lists of concurrent events."),
    "C26": c("TLC: every pair of ranges (lows x spans up to 4 (6) quarter octaves) and every question about places on, inside and outside them with exact shares; inverse, evenness, unit blindness and narrowing as invariants; code compared under six units and bases. Seeded histories with draws: counts per eighth of the log range judged by TLC within six standard deviations. 0 < a < b."),
}
