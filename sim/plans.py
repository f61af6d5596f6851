"""How much each check explores, and what its evidence says about the method."""

LEVEL = "exploration"

RULE = (
    "A run is one scenario (layers or models drawn from the palette of its process, operations per "
    "thread), executed under one schedule and one set of faults, all from the seed. It counts as "
    "non-trivial if a thread was suspended inside an operation, a fault fired, an operation failed "
    "or more than three operations ran, and as distinct if the hash of scenario and all its steps is."
)

COMPONENTS = {
    "real": [
        "all of groco (groups, layers, utils) from /repo's working tree, unmodified",
        "Keras layers, models, saving, trainer, optimizers", "JAX eager execution, tracing, XLA on the CPU",
        "threads of the interpreter (one runs at a time)", "files of saved models, in a scratch folder",
    ],
    "simulated": [
        "the choice of which thread runs (at every line and call of groco and of the Keras functions that run a layer)",
        "locks, conditions and sleeps of the code under test", "failing operations, interrupts and exits",
        "process crashes: objects dropped, only config text and saved arrays kept",
    ],
    "stub": ["user supplied activations and initializers that fail, look or call again when told"],
}

ASSUMPTIONS = [
    "threads interleave at line and call boundaries of Python code, not inside NumPy, Keras operations or XLA",
    "the code under test runs on the JAX CPU backend of Keras",
    "a run samples schedules and faults: absence of violations is evidence, not proof",
    "the reference model (sim/ref.py, plain NumPy) defines group convolution, pooling and group action",
]


def plan(rule, scenarios=22, variants=4, buckets=24, cap=150, deep=12):
    return {
        "rule": rule,
        "quick": {"buckets": buckets, "scenarios": scenarios, "variants": variants, "cap": cap},
        "thorough": {"buckets": buckets * deep, "scenarios": scenarios * 2, "variants": variants + 2, "cap": cap * 3},
    }


PLANS = {
    "C01": plan("Two or three threads use the same objects and groups."),
    "C02": plan("Calls are made to fail, at a random point, by bad input, failing operations, interrupts or a user function."),
    "C03": plan("Observers look at objects from other threads and from inside running calls."),
    "C04": plan("Weights are updated by one or two threads while others call; every value is unique."),
    "C05": plan("Builds and building calls fail at random points and are repeated.", scenarios=30),
    "C06": plan("Histories of calls, shape queries and bad inputs of different sizes and kinds.", scenarios=26),
    "C07": plan("Objects are saved while calls run, dropped, and restored in the same and in new processes.", scenarios=20),
    "C08": plan("Threads act with groups and use, build and fail layers on them.", scenarios=16, buckets=16),
    "C09": plan("Training with failing, repeated steps, crashes between steps and evaluations.", scenarios=9, variants=3),
    "C10": plan("Lives of layers and models with updates, failures, restarts and concurrency, with checks of equivariance.", scenarios=26),
    "C11": plan("Eager, symbolic and traced uses in random order, traces aborted at random points.", scenarios=12),
    "C12": plan("Several layers with much in common are created, used, failed, restored and discarded."),
}
