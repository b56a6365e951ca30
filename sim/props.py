"""What each check explores. quick/thorough: seconds of search with all workers."""
_H = ("One integer seed draws a history: engines with options, integrals (1 to 4 integrations, up to 6 lines, multiple poles, neighbours that differ in one detail), external "
      "values (ordinary, zero, huge, infinite), and 8 to 30 calls over the whole public interface, with arguments reused, overwritten, copied, moved and serialised. ")
_C = ("A builder task stores solutions, then 2 to 4 client tasks run their own histories over the shared ones under a seeded scheduler (random quanta, switches at shared accesses, priority "
      "changes; four schedules per history). ")
_F = "The history runs once without faults to measure every call, then again with allocation failures placed inside its calls (nth, all from the nth, by size, by live bytes). "
PROPS = {
    "S01": dict(rule=_C + "Non-trivial: at least two clients, two switches and two library calls."),
    "S02": dict(rule=_C + "Clients build and evaluate their own problems with their own engines and options. Non-trivial: at least two clients, two switches and two library calls."),
    "S03": dict(rule=_C + "Clients share one engine. Non-trivial: at least two clients, two switches and two library calls."),
    "S04": dict(rule=_C + "One or more clients are stopped inside a library call, for ever or until the others are done; the others must finish within ten times the steps they need alone. Non-trivial: a client was stopped."),
    "S05": dict(rule=_C + "Solutions are copied, moved and serialised to another task, engine or (in half of the seeds) another simulated process. Non-trivial: a process hand-over happened, or two switches."),
    "C01": dict(rule="A stepwise construction with checkpoints after a seeded choice of steps, killed at seeded instructions inside calls or between them and restarted in a new process with nothing but the last durable checkpoint; at the end compared with the one-shot construction. Non-trivial: at least one crash."),
    "F01": dict(rule=_H + _F + "Non-trivial: at least one allocation failed."),
    "F02": dict(rule=_H + _F + "Failed calls are repeated with the same arguments. Non-trivial: at least one allocation failed."),
    "F03": dict(rule=_H + _F + "The whole history is repeated several times in one process. Non-trivial: at least one allocation failed."),
    "I01": dict(rule=_H + "Diagnostics are switched on for many calls; the device behind the streams fails, writes short, throws or fails to flush at a seeded byte. Non-trivial: a report was compared in full or a fault fired inside one."),
    "I02": dict(rule=_H + "Environment variables, locale, clocks and random sources take seeded values; output, files, process settings and standard streams are watched. Non-trivial: at least two evaluations."),
    "H01": dict(rule=_H + "Part of the calls fail for lack of memory or have a failing device. Non-trivial: at least two evaluations."),
    "H02": dict(rule=_H + "The indicator is preset by the client at times, and part of the calls fail for lack of memory. Non-trivial: at least two evaluations."),
    "H03": dict(rule=_H + "Inputs and options are watched byte by byte during every call, including calls that fail for lack of memory. Non-trivial: at least two evaluations."),
    "D01": dict(variants=("raw", "std", "mp", "raw", "std", "raw", "mp", "raw"), rule=_H + "Fresh heap blocks, freed blocks and the stack hold seeded garbage, addresses are shifted and block reuse varies. Non-trivial: at least two evaluations."),
}
