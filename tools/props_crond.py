SRC = "crond/src/"
def M(name, where): return dict(name=name, where=where)
def P(id, title, statement, files, mech, why, text, over, technique, note, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None), technique=technique, level_note=note)
N = "Seeded exploration of the real crate judged by an independent field parser, membership test and civil-date arithmetic (harness/crond/src/oracle.rs); no violation on what was executed, not a proof."
T = "runtime monitoring: offline checker of observed results against an independent cron/calendar oracle over generated expressions, instants and time zones"
PROPS = [
 P("C01", "The cron parser accepts exactly the cron language and builds its tree",
   "A text is accepted exactly when it is five fields (minute 0-59, hour 0-23, day of month 1-31, month 1-12, day of week 1-7, SUN-SAT or L) separated by single spaces with nothing before or after, each field being *, */step, or a comma-separated list of values and from-to ranges with an optional /step, where values may carry one leading zero, steps are values of the same field, and a step of zero or a trailing comma is rejected. An accepted text yields the tree that its fields spell (SUN is 1, SAT is 7), a one-element list being the element itself. Schedule construction accepts exactly the same texts.",
   [SRC + "cron_parser.rs", SRC + "cron_expr.rs", SRC + "cron_schedule.rs"],
   [M("digit parsers, list, range, step combinators", SRC + "cron_parser.rs"), M("has_zero_step filter", SRC + "cron_parser.rs")],
   "tests parse a few valid texts; the claim covers every digit pair of every field, every list/range/step shape and every near-miss", "every text", ["inputs"], T, N,
   ["CronParser::parse result", "CronSchedule::new result"]),
 P("C02", "A cron expression matches an instant exactly when all five fields match",
   "An expression is satisfied by an instant exactly when its minute, hour, day-of-month, month and day-of-week fields all match that instant's local date and time in its own zone (Sunday is 1). A field matches when it is *, or holds the value, or a range holds it (with a step: counted from the range's start, both ends inclusive), or */n divides it, or L stands for the field's greatest value (for the day: the last day of that month); a reversed range matches nothing. Evaluation never fails, also for hand-built trees, and evaluating through the specification gives the same answer.",
   [SRC + "cron_evaluator.rs", SRC + "cron_specification.rs", SRC + "cron_environment.rs", SRC + "lib.rs"],
   [M("visit over (now, max) per field", SRC + "cron_evaluator.rs"), M("get_days_from_month", SRC + "lib.rs")],
   "tests evaluate one instant with equal day and weekday numbers; month ends, leap years, zones and which field decides are not sampled", "every expression, every instant, every zone", ["inputs", "states"], T, N,
   ["CronEvaluator::eval result", "Specification::is_satisfied_by result"]),
 P("C03", "An open schedule yields every due minute once, in order, from its start",
   "Enumerating a schedule from a start instant yields, in ascending order and without omission or repetition, exactly the instants start + k minutes (k = 0, 1, 2, ...) that satisfy the expression, the start itself included when it is due, with seconds and zone preserved, across month, year and offset changes. A copy of the enumeration continues where the original stands, and enumerating again starts over. The same holds for an arbitrary user-supplied condition in place of the expression.",
   [SRC + "cron_schedule.rs", SRC + "cron_interval.rs", SRC + "cron_interval_iterator.rs"],
   [M("curr/next cursor and proceed_next", SRC + "cron_interval_iterator.rs"), M("LimitValue conversion through milliseconds", SRC + "cron_interval.rs")],
   "the one test takes five instants of one schedule from one start", "every schedule with due instants, every start, zone and length", ["inputs", "histories"],
   "runtime monitoring: yielded trace compared with a minute-by-minute reference walk; a step clock in the time zone and in the condition bounds every enumeration", N + " Schedules that never become due are endless by construction and outside the property.",
   ["items yielded by the iterator", "instants the condition is asked about"]),
 P("C04", "A bounded interval yields exactly its due instants and then ends",
   "An interval with a start and an end yields exactly the due instants start + k minutes that lie at or before the end, in order; when none is left it ends, and stays ended however often it is asked again. This holds for every expression, also one that never matches within the interval, and for arbitrary user-supplied conditions.",
   [SRC + "cron_interval.rs", SRC + "cron_interval_iterator.rs"], [M("end comparison in proceed_next", SRC + "cron_interval_iterator.rs")],
   "no test uses an interval with an end", "every condition, start, end and number of calls", ["inputs", "histories"],
   "runtime monitoring: yielded trace to exhaustion and beyond compared with a reference walk, under a step clock", N, ["items yielded by the iterator, including calls after its end"]),
 P("C05", "Every text parses or is rejected, and what parses can be evaluated",
   "Parsing any text whatsoever returns either an expression or a non-empty error message without panicking, and every expression it returns can be evaluated at any instant without panicking.",
   [SRC + "cron_parser.rs", SRC + "cron_evaluator.rs"], [M("instruction() - end()", SRC + "cron_parser.rs")],
   "tests feed only well-formed texts", "every text, every instant", ["inputs"], "runtime monitoring: panic and step monitor over hostile texts", "Seeded exploration; panics, hangs and empty messages are violations.", ["CronParser::parse outcome", "CronEvaluator::eval outcome"]),
]
