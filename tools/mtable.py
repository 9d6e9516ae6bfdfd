"""Technique and assurance per finished check."""
OPN = ("Held on the executed calls only: random shapes, tilings with partial tiles, scalar factors and data against a "
       "reference computed in extended precision. Trusts numpy and the tolerance model (error counts, not loosened per case).")
T = {
 "P01": ("runtime oracle: traits and tensor grids of random shapes compared with exhaustive enumeration of elements and tiles",
         "Held on the executed shapes, tilings and indices only."),
 "P02": ("runtime oracle: distributions of random grids compared with an independent model; acceptance checked by construction",
         "Held on the executed grids only; one MPI rank exists here, so ownership is judged from the returned lists."),
 "P03": ("runtime oracle: bit-exact round trips of random bit patterns through host arrays, scatter, gather and copy",
         "Held on the executed transfers only."),
 "P04": ("runtime oracle: placed pairs of tensors and tiles compared bit for bit with an indexing model, under a task-level monitor",
         "Held on the executed placements only."),
 "P09": ("runtime oracle: single calls and whole softmax chains judged against an extended-precision model", OPN),
 "P10": ("runtime oracle: fused attention calls and forward/backward chains judged against explicit attention in extended precision", OPN),
 "P05": ("runtime oracle: randomised calls judged against an extended-precision model, under a task-level monitor", OPN),
 "P06": ("runtime oracle: magnitude-stratified inputs judged against an extended-precision model", OPN),
 "P07": ("runtime oracle: randomised calls judged against an extended-precision model, under a task-level monitor", OPN),
 "P08": ("runtime oracle: randomised contractions judged against an extended-precision model, under a task-level monitor", OPN),
 "P11": ("runtime oracle: randomised indexed lookups judged against an indexing model", OPN),
 "P12": ("runtime oracle: random windows refilled under random tilings and compared bit for bit with one base window; statistical tests on samples",
         "Held on the executed windows and seeds only; quality of the generator is judged by moment, range and Kolmogorov-Smirnov tests on finite samples."),
 "P14": ("runtime monitoring of asynchronous programs: sequential-replay oracle plus online dependency-order and access-mode checker over task events, with injected delays and several schedulers",
         "Held on the executed programs and observed interleavings only (counts in the evidence). Trusts StarPU's own calls as the observation point."),
 "P17": ("runtime oracle: one-condition-broken calls must raise, submit no task and leave operands bit-identical",
         "Held on the executed invalid calls; 'no task' is observed at StarPU's submission boundary."),
 "P13": ("runtime oracle: the same calls and programs executed under several tilings, compared bit for bit or with an extended-precision model",
         "Held on the executed calls and tilings only."),
 "P15": ("runtime monitoring: task-level hashing of read buffers and poisoning of write-only ones; calls repeated over different stale contents must agree bit for bit",
         "Held on the executed calls only; a task's undeclared writes are seen only in buffers registered with the runtime."),
 "P16": ("runtime oracle: calls and asynchronous exact-arithmetic programs executed with the reduction option off, on and mixed, compared bit for bit or with a model",
         "Held on the executed programs, worker counts and schedules only."),
 "P29": ("runtime oracle: randomised single-tile calls judged against an extended-precision model; one-condition-broken calls must raise and change nothing",
         "Held on the executed calls only."),
 "P21": ("runtime oracle: forward passes of randomly built layers compared with double-precision PyTorch references, under a task-level monitor",
         "Held on the executed layers, shapes and data only. Trusts PyTorch; tolerances come from measured sensitivity of each case."),
 "P22": ("runtime oracle: backward passes compared with automatic differentiation; unwanted gradients and inputs must stay bit-identical",
         "Held on the executed layers, shapes and data only. Trusts PyTorch; tolerances come from measured sensitivity of each case."),
 "P23": ("runtime oracle over training histories: every iteration of random models compared with automatic differentiation and with a freshly built model",
         "Held on the executed graphs, histories and schedules only."),
 "P24": ("runtime oracle: losses and gradients of random batches compared with extended-precision models", OPN),
 "P25": ("runtime oracle over histories: every optimizer step compared with an extended-precision recurrence",
         "Held on the executed histories and hyper-parameters only."),
 "P26": ("runtime oracle over histories: continuation after save and load compared bit for bit with the uninterrupted run",
         "Held on the executed histories only."),
 "P27": ("runtime oracle: imported models compared with the original PyTorch models in double precision, exports bit for bit",
         "Held on the executed architectures only. Trusts PyTorch and Transformers as the reference."),
 "P28": ("runtime oracle over histories: pipeline runs compared with plain gradient descent in double precision",
         "Held on the executed pipelines, batches and schedules only."),
 "P18": ("AddressSanitizer, UndefinedBehaviorSanitizer and checked containers under the workloads of all other checks; extents of BLAS calls checked against the allocation",
         "Held on the executed calls only; accesses that stay inside one allocation are left to the numeric checks."),
 "P19": ("runtime monitoring of life-cycle histories: programs with drops, pauses and restarts against the sequential execution, bit for bit; register/release balance at the runtime boundary; guard zones around user memory; exit codes of processes ending with work pending",
         "Held on the executed histories only (kinds of drops, restarts and exits are counted in the evidence). Trusts StarPU's own life cycle."),
 "P20": ("ThreadSanitizer with the runtime's declared ordering announced by the monitor, under asynchronous programs, reductions and training on several workers",
         "Held on the executed programs and schedules only. StarPU and the BLAS library are not instrumented: their documented behaviour is assumed, BLAS accesses are announced by interception."),
}
PENDING = {}
