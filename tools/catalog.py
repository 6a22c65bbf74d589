#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: what is claimed, for the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DA, LO, SLO = "pylops_mpi/DistributedArray.py", "pylops_mpi/LinearOperator.py", "pylops_mpi/StackedLinearOperator.py"
BD, VS, HS = (f"pylops_mpi/basicoperators/{f}.py" for f in ("BlockDiag", "VStack", "HStack"))
FD, SD, GR, LA = (f"pylops_mpi/basicoperators/{f}.py" for f in ("FirstDerivative", "SecondDerivative", "Gradient", "Laplacian"))
FR, MDC = "pylops_mpi/signalprocessing/Fredholm1.py", "pylops_mpi/waveeqprocessing/MDC.py"
CLS, BAS, DOT, DEC = ("pylops_mpi/optimization/cls_basic.py", "pylops_mpi/optimization/basic.py", "pylops_mpi/utils/dottest.py",
                      "pylops_mpi/utils/decorators.py")
FEW = "The tests run a few fixed shapes on one fixed number of processes"

P = []


def prop(id_, title, statement, over, text, why, files, mech, observe, note=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id_, statement)
    P.append((dict(id=id_, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe,
                            "hook_needed": None}), note))


prop("C01", "Scattering an array and gathering it back gives the same array",
     "Distributing a global array over any number of ranks, with any partition, axis, local shapes, dtype and mask, and gathering "
     "it back gives the same array on every rank. Each rank holds exactly the part its local shape says (by default the rows are "
     "split as evenly as possible, the first ranks getting one more), and the reported shapes, axis, partition, dtype, sizes and "
     "communicator agree with it.",
     ["inputs", "configurations"], "Every array of 1-3 dims (empty extents included), dtype, layout, mask and rank count 1-8.",
     FEW + " with evenly split axes; empty ranks, uneven layouts and other rank counts are not reached.",
     [DA], [("default split of an axis", DA + " local_split"), ("scatter", DA + " to_dist"), ("gather", DA + " asarray")],
     ["local arrays, metadata and the gathered array on every rank"])
prop("C02", "Replicated arrays stay identical on all ranks, local ones stay local",
     "Assigning to a replicated (broadcast) array leaves rank 0's values on every rank, whatever each rank assigned. Assigning to "
     "a scattered or unsafely replicated array changes only the assigning rank's part and needs no other rank to take part.",
     ["inputs", "histories"], "Every sequence of assignments (whole, partial, scalar) with different values per rank, by all or some ranks.",
     "Tests assign the same value everywhere, so a missing or wrong broadcast cannot be seen.",
     [DA], [("broadcast on assignment", DA + " __setitem__")], ["local arrays on every rank after every assignment"])
prop("C03", "Array arithmetic equals NumPy's on the global arrays",
     "Adding, subtracting and multiplying distributed arrays with each other or with scalars, in place or not, gives NumPy's "
     "result on the global arrays, on every rank's part, with the layout, mask, partition and communicator of the operands. "
     "Out-of-place operations never change their operands and never share memory with them.",
     ["inputs"], "Every pair of arrays with the same layout (all partitions, dtypes, masks, empty ranks), scalar type and spelling of the operation.",
     FEW + " with float64 arrays evenly split; mixed dtypes, uneven layouts and aliasing are not reached.",
     [DA], [("elementwise operations", DA + " add, iadd, multiply, __neg__, __sub__")], ["local arrays and metadata on every rank"])
prop("C04", "Dot products and norms are those of the global array on every rank",
     "The dot product of two arrays (and its conjugated variant) and the norm of order 0, 1, 2, higher, negative, plus or minus infinity, over the "
     "flattened array or along any axis, equal NumPy's on the global array, on every rank, for every layout and partition, "
     "ranks without elements included. Orders and shapes for which this makes no sense are refused on every rank.",
     ["inputs", "configurations"], "Every array (shape, dtype, layout, partition), order, axis and rank count 1-8.",
     FEW + "; empty ranks, uneven layouts, other orders and axes other than the distributed one are not reached.",
     [DA], [("sum over ranks", DA + " _allreduce, dot"), ("vector norms", DA + " _compute_vector_norm, norm")],
     ["values returned on every rank"])
prop("C05", "Masks confine dot products and norms to groups of ranks",
     "On an array with a mask, dot products and norms are those of the part of the array owned by the ranks with the same mask "
     "value as the calling rank. Arrays derived from masked ones keep the mask, and combining arrays with different masks is "
     "refused on every rank.",
     ["inputs", "configurations"], "Every mask (contiguous or interleaved groups, single ranks), array, layout, order and derivation.",
     "Tests use one fixed mask of contiguous halves; interleaved or uneven groups and derived arrays are not reached.",
     [DA], [("subcommunicators", DA + " subcomm_split"), ("mask check", DA + " _check_mask")], ["values returned on every rank"])
prop("C06", "Copies, conjugates, negations, zeros and flattened arrays are faithful",
     "Copying, negating, conjugating, zeroing and flattening a distributed array give NumPy's values of each rank's part, with the "
     "same partition, communicator and mask, and a layout that matches. The results do not share memory with the original, "
     "through any chain of these operations.",
     ["inputs", "histories"], "Every chain of such operations on every kind of array, shape, layout, dtype, mask and order of flattening.",
     FEW + "; chains, masks, orders of flattening and memory sharing are not reached.",
     [DA], [("derived arrays", DA + " copy, conj, zeros_like, ravel, __neg__")], ["local arrays and metadata on every rank"])
prop("C07", "Ghost cells are the neighbours' cells, or refused on every rank",
     "Asking for ghost cells gives every rank its own part extended by as many cells as it asked for of the previous and next "
     "rank's parts along the distributed axis, even when ranks ask for different numbers of cells. If a neighbour has fewer cells "
     "than asked for, every rank raises an error instead of some waiting forever. The extended array is new memory: the array "
     "itself is left alone, also when the extended one is overwritten.",
     ["inputs", "schedules", "configurations"], "Every shape, axis, layout, dtype and number of cells asked for per rank; every message order.",
     "Tests ask for the same number of cells on all ranks of evenly split arrays, and cannot see a hang that depends on the schedule.",
     [DA], [("exchange with neighbours", DA + " add_ghost_cells"), ("check on every rank", DA + " _check_ghost_cells")],
     ["ghosted local arrays on every rank", "errors on every rank"])
prop("C08", "Operators do not depend on how their scattered input is laid out",
     "Applying an operator, forward or adjoint, to a scattered vector gives the same result, in the same output layout, however "
     "the vector's elements are split over the ranks, as long as the elements each rank is missing are held by its direct "
     "neighbours. Otherwise every rank raises an error; no element is ever taken from the wrong place.",
     ["inputs", "configurations"], "Every operator taking scattered vectors, every pair of layouts (empty ranks included), rank counts 1-8.",
     "Tests give operators inputs already laid out as they need or with one fixed other layout.",
     [DEC, DA], [("redistribution", DEC + " reshaped"), ("exchange with neighbours", DA + " add_ghost_cells")],
     ["results on every rank"])
prop("C09", "Stacked arrays behave as the concatenation of their members",
     "Arithmetic, dot products, norms, copies, conjugates and gathering of a stack of distributed arrays give what NumPy gives on "
     "the concatenation of its flattened members, on every rank, and leave the operands alone. Stacks that do not match are "
     "refused on every rank.",
     ["inputs", "histories"], "Every sequence of operations on stacks of 1-4 members of any kind, shape, layout and dtype.",
     "Tests stack two equal members; ragged stacks, mixed partitions and other orders of norm are not reached.",
     [DA], [("member-wise operations", DA + " StackedDistributedArray")], ["member arrays and returned values on every rank"])
prop("C10", "A block-diagonal operator is the block-diagonal matrix of all ranks' blocks",
     "The block-diagonal operator built from every rank's serial operators acts, forward and adjoint, as the block-diagonal matrix "
     "of all of them in rank order, for any number and shape of blocks per rank and any dtype. Its result is laid out as the "
     "blocks are, carries the operator's mask and dtype, and its input is left alone.",
     ["inputs", "configurations"], "Every list of serial operators per rank, dtype, mask, input layout and rank count 1-8.",
     FEW + " with one matrix of the same shape on every rank.",
     [BD], [("per-rank application", BD + " _matvec, _rmatvec"), ("shapes from all ranks", BD + " __init__")], ["results on every rank"])
prop("C11", "Vertical and horizontal stacks are the stacked matrices of all ranks' blocks",
     "The vertical (horizontal) stack of every rank's serial operators acts, forward and adjoint, as the matrix of all of them "
     "stacked vertically (horizontally) in rank order; the side that is common to all blocks is a replicated vector, identical on "
     "all ranks. Blocks whose common side differs, on one rank or between ranks, are refused on every rank.",
     ["inputs", "configurations"], "Every list of serial operators per rank, dtype, kind and layout of the vectors, rank count 1-8.",
     FEW + " with one matrix of the same shape on every rank.",
     [VS, HS], [("sum over ranks", VS + " _rmatvec"), ("shapes from all ranks", VS + " __init__"), ("adjoint of a vertical stack", HS)],
     ["results on every rank", "errors on every rank"])
prop("C12", "Stacked operators apply each distributed member to its own part",
     "A diagonal stack of distributed operators maps each member of a stacked vector through its own operator; a vertical stack "
     "maps one vector through all operators and its adjoint sums up their adjoints. Stacks whose members do not fit, and vectors "
     "or products that do not fit a stack, are refused on every rank.",
     ["inputs", "programs"], "Every list of 1-4 distributed operators (or small expressions of them) between scattered and replicated vectors.",
     "Tests stack two operators of equal shape.",
     [BD, VS, SLO], [("members one after another", BD + " MPIStackedBlockDiag"), ("sum of adjoints", VS + " MPIStackedVStack")],
     ["results on every rank", "errors on every rank"])
prop("C13", "The first derivative equals the documented stencil on the whole grid",
     "The first derivative along the distributed axis acts, forward and adjoint, as the documented forward, backward or centered "
     "(3- or 5-point) finite-difference matrix with the requested edge treatment and sampling on the whole grid, whatever the "
     "number of ranks and the layout of the input, scattered or replicated. If a rank has too few rows for the stencil, either "
     "the result is still right or every rank raises an error.",
     ["inputs", "configurations"], "Every grid of 1-3 dims, kind, order, edge treatment, sampling, dtype, layout and rank count 1-8.",
     FEW + " with many rows per rank; rank counts with few or uneven rows, where ranks need each other most, are not reached.",
     [FD, DEC], [("stencils over ghost cells", FD), ("redistribution", DEC + " reshaped")], ["results on every rank"])
prop("C14", "The second derivative equals the documented stencil on the whole grid",
     "The second derivative along the distributed axis acts, forward and adjoint, as the documented forward, backward or centered "
     "finite-difference matrix with the requested edge treatment and sampling on the whole grid, whatever the number of ranks "
     "and the layout of the input, scattered or replicated. If a rank has too few rows for the stencil, either the result is "
     "still right or every rank raises an error.",
     ["inputs", "configurations"], "Every grid of 1-3 dims, kind, edge treatment, sampling, dtype, layout and rank count 1-8.",
     FEW + " with many rows per rank; rank counts with few or uneven rows, where ranks need each other most, are not reached.",
     [SD, DEC], [("stencils over ghost cells", SD), ("redistribution", DEC + " reshaped")], ["results on every rank"])
prop("C15", "Gradient and Laplacian of a distributed grid are those of the whole grid",
     "The gradient of a distributed grid is the stack of its first derivatives along every axis, and the Laplacian is the weighted "
     "sum of its second derivatives along the requested axes, forward and adjoint, exactly as serial PyLops computes them on the whole grid, "
     "for any dimensions, sampling, kind, edge treatment and layout of the input.",
     ["inputs", "configurations"], "Every grid of 1-4 dims, axes in any order, weights, sampling, kind, edge treatment, dtype and rank count.",
     FEW + " and default axes.",
     [GR, LA, FD, SD], [("stack of derivatives", GR + " _calc_stack_op"), ("sum of derivatives", LA + " _calc_l2op")],
     ["results on every rank"])
prop("C16", "Every operator's adjoint is the adjoint of its forward",
     "For every distributed or stacked operator, or expression of operators, the inner products of the forward and adjoint applied to random vectors agree (to rounding), "
     "with vectors of any kind and layout the operator accepts, and applying it is linear. Adjoints of adjoints and of transposes act as the operator itself.",
     ["inputs", "programs"], "Every operator of the library with random parameters, every pair of vectors, rank count 1-6.",
     "Tests run the dot-test on one configuration per operator.",
     [LO, SLO, BD, VS, HS, FD, SD, GR, LA, FR, MDC], [("adjoint views", LO + " _AdjointLinearOperator, _TransposedLinearOperator")],
     ["inner products on every rank"])
prop("C17", "Operator expressions mean what they mean for matrices",
     "Sums, differences, products, powers, scalings, negations, adjoints, transposes and conjugates of distributed operators, nested in any way, act "
     "forward and adjoint as the same expression of their matrices, for real and complex operators and scalars. The result keeps "
     "the communicator, shape and (real or complex) type of its operands, and the vectors given to it are left alone.",
     ["programs", "inputs"], "Every expression up to depth 3 over the library's operators, every scalar type, vector and rank count 1-6.",
     "Tests apply each rule once, to one real block-diagonal operator; nesting and complex scalars are not reached.",
     [LO], [("operator views", LO + " _SumLinearOperator and the other views")], ["results on every rank"])
prop("C18", "Expressions of stacked operators mean what they mean for matrices",
     "Sums, differences, products, powers, scalings, negations, adjoints, transposes and conjugates of stacked operators, nested in any way, act "
     "forward and adjoint as the same expression of their matrices, for real and complex operators and scalars. The result keeps the "
     "communicator, shape and (real or complex) type of its operands, and the vectors given to it are left alone.",
     ["programs", "inputs"], "Every expression up to depth 3 over diagonal and vertical stacks, vectors and stacked vectors, rank count 1-5.",
     "Tests apply each rule once, to one pair of stacked operators.",
     [SLO], [("operator views", SLO + " _SumStackedLinearOperator and the other views")], ["results on every rank"])
prop("C19", "The distributed Fredholm integral is the batched matrix product",
     "With the frequency slices of the kernel spread over the ranks in any way (at least two per rank), the Fredholm operator "
     "applied to a replicated vector gives, forward and adjoint, the product of every slice's matrix (or its adjoint) with the slice of the vector, "
     "identical on all ranks, whichever way it is computed. Kernels with fewer slices on some rank, and vectors that are not replicated, are refused on every rank.",
     ["inputs", "configurations"], "Every kernel shape and split of its slices, dtype, computation option and rank count 1-6.",
     "Tests use an equal number of slices per rank.",
     [FR], [("gather of slices", FR + " _matvec, _rmatvec")], ["results on every rank"])
prop("C20", "Distributed multi-dimensional convolution equals the serial one",
     "Multi-dimensional convolution with the kernel's frequencies spread over the ranks in any way gives, forward and adjoint, "
     "what serial PyLops gives with the whole kernel, on every rank, for any option (one- or two-sided, conjugated, prescaled, "
     "sampling, number of virtual sources, ways of computing). Even lengths of two-sided convolutions are refused on every rank.",
     ["inputs", "configurations"], "Every kernel shape and split of its frequencies, length, option, dtype and rank count 1-5.",
     "There are no tests of it in the suite.",
     [MDC, FR], [("chain of operators", MDC + " _MDC")], ["results on every rank"])
prop("C21", "CG computes the textbook iterates and reports them faithfully",
     "Conjugate gradients on any Hermitian positive-definite distributed or stacked operator gives, after any number of "
     "iterations, the iterate of the textbook algorithm on the corresponding matrix, with its residual norms as cost and its iteration count, identically on "
     "all ranks and for every distribution. It stops at the first iteration whose residual is at most the tolerance, or at the iteration limit, and leaves data, guess and operator alone.",
     ["inputs", "configurations"], "Every positive-definite operator, right-hand side, starting guess, tolerance, iteration limit, layout and rank count.",
     "Tests only compare the solution after convergence with one tolerance.",
     [CLS, BAS], [("iteration", CLS + " CG.setup, step, run, solve")], ["solution, iteration count and cost on every rank"])
prop("C22", "CGLS computes the textbook iterates, damping included, and reports them",
     "CGLS on any distributed or stacked operator gives, after any number of iterations, the iterate of the textbook algorithm "
     "for the damped least-squares problem on the corresponding matrix, with the documented status, iteration count, residual "
     "norms and cost, identically on all ranks and for every distribution. It stops at the first iteration at or below the tolerance, or at the limit, and leaves data, guess and operator alone.",
     ["inputs", "configurations"], "Every operator, right-hand side, starting guess, damping, tolerance, iteration limit, layout and rank count.",
     "Tests only compare the solution after convergence with one tolerance and without damping.",
     [CLS, BAS], [("iteration", CLS + " CGLS.setup, step, run, solve")], ["solution, status, counts, norms and cost on every rank"])
prop("C23", "Invalid requests are refused on every rank, and nothing hangs",
     "Combining arrays, operators and vectors that do not fit (global shapes, partitions, masks, sizes, dimensions, powers, kinds of "
     "derivative, unknown partitions and engines, wrong constructor arguments) raises an error on every rank, never on some while others wait, and never gives a result. "
     "After any such error the same communicator and arrays can still be used.",
     ["inputs", "histories"], "Every kind of misfit, chosen at random and placed on any rank, followed by a valid operation.",
     "Tests check a handful of errors; they cannot tell an error on one rank from one on all.",
     [DA, LO, SLO, VS, HS, FR], [("checks", DA + " _check_partition_shape, _check_mask, _check_local_shapes"), ("shape checks", LO + " matvec")],
     ["errors on every rank", "a valid operation afterwards"])
prop("C24", "Results and communication do not depend on scheduling or buffering",
     "Every operation completes on all ranks under every interleaving of the ranks and whether or not the MPI library buffers messages, "
     "gives the same results every time, and leaves no message unreceived and no request unfinished.",
     ["schedules", "programs"], "Random programs over the library's arrays, operators and solvers; many schedules, buffered and synchronous sends, delayed ranks.",
     "A test run sees one schedule of one MPI library that buffers small messages.",
     [DA, VS, FR, DEC, DOT, CLS], [("pairing of sends and receives", DA + " add_ghost_cells"), ("collectives", DA + " _allreduce, asarray")],
     ["completion, results and message queues under every schedule"])
prop("C25", "Operators and solvers never write to, or hand out, their inputs' memory",
     "Applying any operator or solver leaves its input vectors, guesses, masks and the caller's arrays bit for bit as they were, and writing "
     "to a result changes neither the inputs nor what the operator computes next, nor earlier results.",
     ["programs", "histories"], "Every operator, expression and solver, random histories of applying them and overwriting their results.",
     "Tests compare one result once and never write to it.",
     [LO, SLO, DA, CLS], [("fresh results", DA + " copy, add, multiply")], ["inputs and earlier results after every step"])
prop("C26", "The dot-test accepts right adjoints and rejects wrong ones, alike on all ranks",
     "The dot-test accepts every operator whose adjoint is right and rejects one whose adjoint is off by more than the tolerance, "
     "with the same verdict on every rank; a rejection is an error, or False if errors were not asked for. It refuses operators and vectors whose shapes do not fit the requested sizes.",
     ["inputs", "programs"], "Every operator, right or with a wrong adjoint of any kind and size, tolerances, complexity flags, rank count.",
     "Tests call it only on right operators.",
     [DOT], [("verdict", DOT + " dottest")], ["verdict on every rank"])
prop("C27", "Everything works on a sub-communicator without involving other ranks",
     "Arrays, operators and solvers given a communicator of some of the ranks give there the results they give when those ranks are alone in "
     "the world, and keep that communicator in all they derive. Ranks outside it need do nothing, and may do other work of their own at the same time.",
     ["configurations", "schedules"], "Every split of the ranks (orders reversed included), programs on each part at the same time, every schedule.",
     "Tests only use the world communicator.",
     [DA, LO, SLO, BD, VS, HS, FD, SD, GR, LA, FR, MDC, CLS, DOT], [("communicator given by the caller", DA + " __init__ and every operator")],
     ["results on every rank, completion"])
prop("C28", "Any history of array operations agrees with a NumPy model",
     "After any sequence of creations, assignments, arithmetic, copies, reductions, flattenings and gatherings on a set of distributed and stacked arrays, in which results feed later "
     "operations, every array equals what the same sequence gives on NumPy arrays, with the layout, mask and partition the rules give it.",
     ["histories"], "Random histories of up to 20 operations on several live arrays with aliasing, every layout, rank count 1-6.",
     "Tests apply one operation to fresh arrays.",
     [DA], [("array operations", DA)], ["all live arrays on every rank after the history"])
prop("C29", "Solvers give the same whether stepped by hand, called whole, watched or reused",
     "Running a solver through its one-call function, its object, or step by step from its setup gives the same solution and "
     "history; the callback is called once per iteration with that iteration's solution; showing progress changes neither results nor completion "
     "on any layout; and a solver object can be used again as if new.",
     ["histories", "inputs"], "Every way of driving both solvers, on plain and stacked problems, any layout (ranks without elements included).",
     "Tests call each solver once, with show on, on evenly split real vectors.",
     [CLS, BAS], [("steps", CLS + " Solver, CG, CGLS")], ["solutions, callbacks and histories on every rank"])
prop("C30", "Wrapped serial operators act on replicated vectors as they do serially",
     "A serial operator wrapped for distributed use acts, forward and adjoint, on a replicated vector on every rank as it does serially, in its own or a requested dtype, "
     "and converting an operator that is already distributed gives it back unchanged.",
     ["inputs", "configurations"], "Every serial operator of a large family (matrices, derivatives, Fourier transforms, restrictions, sums, chains), any dtype and rank count.",
     "The tests wrap one kind of operator once.",
     [LO], [("wrapper", LO + " MPILinearOperator, asmpilinearoperator")], ["results on every rank"])
prop("C31", "Solvers report progress at the first rank only, as asked, and truthfully",
     "A solver prints nothing unless asked to show its progress, and then at the first rank only. What it prints is the operator's size, the tolerance and limit, a "
     "line for each of the first, last and every so many iterations as chosen (or for every step shown when stepping by hand) with that iteration's number, norms "
     "and first value, and the iterations and time taken.",
     ["inputs", "configurations"], "Every problem, layout (a first rank without elements included), way of driving the solver, and choice of iterations to show.",
     "Tests show the log without looking at it, and only run all ten or so iterations.",
     [CLS, BAS], [("log", CLS + " _print_setup, _print_step, run, finalize")], ["standard output of every rank"])
prop("C32", "Plots show the whole array and its owners, at the first rank only",
     "Plotting a scattered array draws, at the first rank only, the whole array next to a map of which rank owns each element, whatever the axis and layout; plotting "
     "local arrays draws every rank's own part in order, with the given title and limits. Neither changes the array, and what cannot be drawn is refused on every rank.",
     ["inputs", "configurations"], "Every two-dimensional array, layout, axis, dtype, mask and rank count 1-5.",
     "The tests draw nothing.",
     ["pylops_mpi/plotting/plotting.py"], [("plots", "pylops_mpi/plotting/plotting.py plot_distributed_array, plot_local_arrays")], ["images of the figures made"])
prop("C33", "Operators a user writes as documented see the right parts and work like any",
     "An operator a user derives from the documented base class, whose methods use the reshaping decorator, is given at every rank that rank's balanced part of the "
     "grid (or the part it declared, when stacking), in an array of its own to use as it likes, however the vector passed is laid out, and its result comes back flattened. Such operators "
     "work in expressions, adjoints and solvers like built-in ones, and vectors that are not scattered are refused on every rank.",
     ["inputs", "configurations"], "Grids of 1-3 axes, fewer rows than ranks, any way of decorating, operators working locally, with ghost cells or gathering; any layout and dtype.",
     "The tests use the decorator only through built-in operators, on evenly laid out vectors.",
     [DEC, LO], [("redistribution and flattening", DEC + " reshaped"), ("base class", LO + " MPILinearOperator")],
     ["arrays the user's methods receive and results on every rank"])
prop("C34", "Describing an array or operator involves only the rank that asks, and is true",
     "The text describing a distributed array tells its class, global shape, the asking rank's local shape, dtype and ranks, that of a stack the number and descriptions of its members, "
     "that of an operator its size, class and dtype. Asking for it needs no other rank.",
     ["inputs", "configurations"], "Every array, stack and operator expression, described by any subset of the ranks.",
     "The tests never look at descriptions.",
     [DA, LO, SLO], [("descriptions", DA + " __repr__"), ("descriptions", LO + " __repr__"), ("descriptions", SLO + " __repr__")],
     ["text returned on the asking ranks, completion of all ranks"])
prop("C35", "The documented distributed inversions equal the serial ones on the whole problem",
     "Post-stack inversion of a model split over the ranks (plain, or with a Laplacian through normal or stacked equations), least-squares inversion of a "
     "replicated model from sources split over the ranks, and multi-dimensional deconvolution model the data, and give the iterates and histories, that the serial operators give on the "
     "whole problem, however it is split.",
     ["inputs", "configurations"], "Model sizes, splits, wavelets, regularization, guesses, damping, tolerances; rank counts 1-6.",
     "The tests try each operator by itself; inversions are only run by tutorials, unchecked.",
     [BD, VS, LA, MDC, CLS, SLO], [("poststack", BD), ("regularization", LA), ("stacked equations", VS + " MPIStackedVStack"), ("deconvolution", MDC), ("solvers", CLS)],
     ["modelled data, adjoints, solutions and histories on every rank"])
prop("C36", "What is made from GPU arrays are GPU arrays of the same values",
     "Every array that results from arithmetic, copies, flattening, operators, operator expressions and solvers, stacked or not, has the engine of the "
     "arrays it was made from and holds that engine's kind of local array, and its values do not depend on the engine.",
     ["inputs", "configurations"], "Chains of array operations, every operator and expression, both solvers; both engines, any layout, rank count 1-8.",
     "The tests only use NumPy arrays, as there is no GPU.",
     [DA, LO, BD, VS, FD, SD, FR, DEC], [("engine", DA + " engine, to_dist"), ("results' engine", "every _matvec and _rmatvec")],
     ["engine and local arrays of every result on every rank"],
     "As for the others; CuPy is not installed, a stand-in made of NumPy arrays of another class takes its place, so what is decided is which engine results have, not "
     "that a GPU can do the work.")

NOTE = ("Random cases (Hypothesis, shrunk to a replayable minimum) run by the real code on 1-8 simulated MPI ranks with random "
        "schedules, synchronous or buffered sends and strict buffers, plus a sample on real MPI; the oracle is written with "
        "NumPy. Trusts NumPy, serial PyLops and the MPI simulator (itself checked against real MPI).")


def main():
    have = [(d, n) for d, n in P if os.path.exists(f"{HERE}/props/{d['id'].lower()}.py")]
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for d, _ in have:
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py selftest",
         "checks": [{"property": d["id"], "quick_cmd": f"/opt/venv/bin/python run.py check {d['id']} --tier quick",
                     "thorough_cmd": f"/opt/venv/bin/python run.py check {d['id']} --tier thorough",
                     "technique": "property-based testing against a NumPy model on simulated MPI ranks",
                     "level": "exploration", "level_note": n or NOTE} for d, n in have],
         "not_applicable": [], "notes": "See DESIGN.md. Replay a violation with: run.py replay FILE."}
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
