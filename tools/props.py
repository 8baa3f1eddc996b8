"""What each check runs: build flavours, number of seeded runs and wall-clock budget (s) per tier."""
HOSTSTUB = "the host program (caller), its motions and call order; the disk (in-memory file system behind fopen/read/write/lseek/close); the allocator; the terminal"


def P(rule, q, t, technique, note, flavour="plain", level="exploration", cpu=40, stubs=HOSTSTUB, assumptions=None, extra=None):
    return dict(level=level, rule=rule, stubs=stubs, technique=technique, note=note, assumptions=assumptions or [],
                parts=[dict(flavour=flavour, quick=q, thorough=t, cpu=cpu)] + (extra or []))


SAMPLED = "Sampled, not exhaustive: a clean batch is evidence over the seeded runs counted in the evidence file, each exactly repeatable. "

PROPS = {
    "C01": P("distinct combinations of model shape, scheme, environment, step pattern and checkpoint instant (hash of the schedule)", (12000, 45), (2000000, 1500),
             "seeded search over models, checkpoint instants and process crashes; bit-exact comparison of the restarted run with the uninterrupted one",
             SAMPLED + "Trusts the crash model (what system calls already wrote survives) and the bit-exact reproducibility of one build."),
    "C02": P("distinct combinations of model shape, scheme, environment and rollback pattern (hash of the schedule)", (12000, 45), (2000000, 1500),
             "seeded search over rollback schedules; bit-exact comparison of repeated passes", SAMPLED),
    "C10": P("distinct combinations of model shape, scheme and step pattern (hash of the schedule)", (26000, 45), (2000000, 1500),
             "seeded search over sequences of coupling steps; the simulator's own clock is the reference", SAMPLED),
    "C03": P("distinct combinations of model shape, scheme, save instant, fault kind and operation hit (hash of the schedule)", (11000, 45), (2000000, 1500),
             "seeded storage and allocation faults on every operation of a save; a save that reports success must load back bit-identically", SAMPLED),
    "C04": P("distinct combinations of model shape, scheme, load instant and kind of damage (hash of the schedule)", (11000, 45), (2000000, 1500),
             "seeded damage to checkpoint files and read faults; the refused load must leave a bit-identical continuation", SAMPLED),
    "C06": P("distinct combinations of model shape, scheme, environment and process history (hash of the schedule)", (4000, 45), (2000000, 1500),
             "same seed replayed under different heap and stack contents and process histories; bit-exact comparison of results, states and files", SAMPLED),
    "C08": P("distinct combinations of model shape, scheme, observation calls and storage faults (hash of the schedule)", (20000, 45), (2000000, 1500),
             "seeded observation calls and storage faults against an unobserved reference run; bit-exact comparison", SAMPLED),
    "C09": P("distinct combinations of model shape, scheme, output requests and step pattern (hash of the schedule)", (24000, 45), (2000000, 1500),
             "seeded output requests, step patterns and process crashes; the simulated disk's files are checked against the query functions at every instant", SAMPLED),
    "C11": P("distinct combinations of model shape, scheme, step pattern and host behaviour (hash of the schedule)", (26000, 45), (2000000, 1500),
             "seeded search over models, motions, rollbacks and host jumps; rigid-body kinematics recomputed by the simulator as the reference after every step", SAMPLED),
    "C12": P("distinct combinations of model shape, scheme, step pattern and command history (hash of the schedule)", (20000, 45), (2000000, 1500),
             "seeded search over pay-out command histories, step patterns and rollbacks; the commanded rate integrated by the simulator is the reference", SAMPLED),
    "C13": P("distinct combinations of model shape, scheme, sector velocities and slicings (hash of the schedule)", (7000, 45), (1000000, 1500),
             "the same motion driven through seeded slicings of time; trajectories compared at the common instants", SAMPLED + "Compared up to rounding growth (1e-5 m, 1 N), so a deviation below that is not seen."),
    "C19": P("distinct combinations of model shape, schemes, instant of the change and step pattern (hash of the schedule)", (7500, 50), (1000000, 1500),
             "seeded search over models, instants and kinds of change of the integration settings, with failing allocations; equivalent call sequences compared bit for bit", SAMPLED + "A change to another scheme is compared up to the discretisation error, which must shrink with the step."),
    "C15": P("distinct combinations of model shape, step pattern and placement of invalid calls (hash of the schedule)", (9000, 25), (1000000, 1200),
             "twin simulations, one of which receives seeded invalid calls at every point of its life; return codes against the headers and bit-exact comparison of the twins", SAMPLED + "The saving of VTK files runs in a build without VTK.",
             extra=[dict(flavour="san", cpu=90, quick=(2000, 30), thorough=(200000, 900))]),
    "C14": P("distinct combinations of model shape, step pattern and timing of the supplies (hash of the schedule)", (24000, 40), (1000000, 1200),
             "seeded search over models, fields of values and timings of the supplies; coordinates against the query functions, late, repeated and corrected supplies against a twin, still water and uniform streams against equivalent models, single-node supplies against the untouched rest", SAMPLED + "Points take no load from supplied accelerations (a documented TODO of the library); the check does not ask for one."),
    "C16": P("distinct combinations of models, sessions, queries and ways to end or restart a session (hash of the schedule)", (6500, 45), (500000, 1500),
             "the same seeded history of sessions driven through the legacy and the current interface; values, codes and files compared bit for bit", SAMPLED),
    "C05": P("distinct combinations of model shape and kinds and outcomes of the injected faults (hash of the schedule)", (9000, 35), (1000000, 1200),
             "seeded damage to the input files, storage faults and failing allocations during start-up; no crash, hang, escape or memory error (second part under AddressSanitizer and UBSan), and a later healthy start compared bit for bit", SAMPLED + "A garbled number may ask for an endless computation: such models are created but not run.",
             extra=[dict(flavour="san", cpu=90, quick=(3000, 40), thorough=(300000, 1200))]),
    "C20": P("distinct combinations of model shape, kinds of life and outcomes (hash of the schedule)", (9000, 60), (400000, 1500),
             "seeded lives of simulations (created, started, run, failing in many ways, closed) repeated in one process with every allocation and descriptor of the library accounted for", SAMPLED),
    "C18": P("distinct combinations of model, scheme, step sizes, commands and instants (hash of the schedule)", (15000, 50), (800000, 1500),
             "seeded histories of coupled runs with commands at arbitrary instants, every internal step compared with an independent executable reference model of the equations and schemes", SAMPLED),
    "C21": P("distinct combinations of environment, step sizes, rollbacks, restarts and changes of scheme (hash of the schedule)", (11000, 50), (800000, 1500),
             "seeded histories with rollbacks, restarts, scheme changes and reads in pieces; the water and seabed queried throughout are compared with an independent evaluation of the input files", SAMPLED),
    "C07": P("distinct sequences of switches between the callers (hash of the schedule)", (4500, 40), (600000, 1200),
             "two to four simulations driven together by a seeded scheduler, in turns at call boundaries (first part) and in real threads pre-empted at basic blocks inside the library (second part), each compared bit for bit with the same caller alone", SAMPLED + "One thread runs at a time: effects of weak memory ordering below the level of basic blocks are not explored.", cpu=60,
             extra=[dict(flavour="sched", quick=(1500, 60), thorough=(300000, 1200), cpu=120)]),
    "C17": P("distinct combinations of model, excitation, changes of scheme and rollbacks (hash of the schedule)", (400, 60), (40000, 1500),
             "seeded excitation histories with rollbacks and changes of scheme, then still host: progress to rest in bounded simulated time, and balance of all loads against an independent model at rest", SAMPLED + "The 250 simulated seconds allowed for settling are a bound of the check, chosen for the damping the models are generated with.", cpu=90),
    "C22": P("distinct combinations of model, motion, commands and instants (hash of the schedule)", (12000, 50), (1000000, 1500),
             "seeded motion and command histories; after each step every load the library hands out is compared with an independent model of lines, points, rods and bodies", SAMPLED + "Rods that just touch the water surface and moments quadratic in the turning rate are not judged.",
             extra=[dict(flavour="san", cpu=90, quick=(1500, 20), thorough=(40000, 600))]),
    "C23": P("distinct combinations of model, motion, commands and instants (hash of the schedule)", (30000, 40), (1500000, 1500),
             "seeded motion and command histories; change of velocity of rods and bodies over each step compared with the acceleration an independent rigid-body model gives", SAMPLED + "Rods that just touch the water surface and moments quadratic in the turning rate are not judged."),
    "C24": P("distinct combinations of model shape and rewritings of the description (hash of the schedule)", (9000, 40), (2000000, 1500),
             "the same seeded history of steps, commands and rollbacks driven through a model and through a seeded rewriting of its input file; values, saved states and output files compared bit for bit", SAMPLED),
    "C25": P("distinct combinations of model shape, scheme and transformation (hash of the schedule)", (20000, 40), (4000000, 1500),
             "the same seeded history of steps and commands driven through a system and through the same system renumbered, shifted, turned or mirrored; everything that can be queried is compared after the inverse transformation", SAMPLED + "Compared up to rounding growth (1e-5 m, 1 N). Anderson's accelerated iteration, lines that start vertical or from another approximation of the catenary, and rods that touch the water surface are left out. Waves and currents given on a grid are not transformed."),
    "C26": P("distinct combinations of model shape and refused calls (hash of the schedule)", (8000, 60), (600000, 1500),
             "the same seeded history driven by a host in C and by a host in Python (the real interpreter and the real module, embedded in the simulator), with refused calls, a full disk and roll-backs in between; everything Python is told is compared with what C is told, bit by bit", SAMPLED + "Calls after Close, allocation failures inside the interpreter, moordyn.Log and the Generator package are not exercised. Without VTK in this build the drawing functions are only seen refusing.", flavour="py"),
    "C27": P("distinct combinations of model shape and file names (hash of the schedule)", (8500, 50), (600000, 1500),
             "the same seeded history driven by a host in C and by a host in Fortran (the real module, called by a Fortran host compiled into the simulator), with a full disk, roll-backs, refused loads and queries out of range in between; values, codes, times, states and files are compared bit by bit", SAMPLED + "Arrays are contiguous. Calls with other arguments than the module declares, and after MD_Close, are not exercised.", flavour="f"),
}
NOT_APPLICABLE = {}
import json, os
for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in PROPS:
        NOT_APPLICABLE.setdefault(i, "check under construction")
