#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=False):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if obs: a["observe_at"]=[obs]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
H="include/tensor/"; D=H+"detail/"
p("C01","Copies are independent values under every history of operations",
 "Copying, assigning, reshaping, flattening or passing a tensor or an index list gives a value that behaves as fully independent of its source: after any sequence of copies, element writes, slice writes, reshapes, in-place arithmetic, self-assignments and destructions, every live object holds exactly the dimensions and elements that a deep-copying implementation would give it, no operation changes an argument it only reads, and storage is released exactly once when its last owner goes away.",
 ["histories"],"every sequence of operations up to a depth over a small set of live objects of the three element kinds","Tests exercise a handful of fixed two-object scenarios; the sharing state is a product of all previous operations on all handles.",
 [D+"refcount.hpp",H+"refcount.h",H+"vector.h",D+"tensor_base.hpp",D+"tensor_ops.hpp",D+"tensor_slice.hpp"],"reference-counted copy-on-write storage shared by tensors, vectors and index lists",state="who shares which buffer",obs="elements, dimensions and storage balance after every step")
p("C02","Element access follows column-major order, negative indices and bounds",
 "For every rank from one to six and all dimensions, reading or writing the element at a multi-index touches exactly the element whose column-major position corresponds to it and nothing else; an index -k addresses the k-th element from the end of its dimension. Any index outside its dimension, a wrong number of indices, or a request for a dimension that does not exist is rejected by ending the program with an error instead of touching memory. A tensor built from elements (a std::vector, a Vector, a generator, dimensions with elements, a tensor of another element type) holds exactly these, in this order, whatever happens to the original, and a number of elements that does not fit the dimensions is rejected.",
 ["inputs"],"all ranks, all small dimension lists (including empty and unit dimensions), all index tuples from below -d to above d-1","Tests sample a few random tensors and do not cover the negative/out-of-range combinations of each rank.",
 [D+"tensor_base.hpp",D+"common.h"],"per-rank index normalisation and linearisation",obs="value read, changed positions, rejection")
p("C03","Slices read and write exactly the selected elements",
 "A slice taken with any combination of all / single index / start-stop / start-stop-step / index-list selectors (with negative positions counting from the end) equals element by element the selection it names, in order, with the selection's dimensions; assigning a scalar, a tensor or another slice (possibly of the same or a sharing tensor) through a slice changes exactly the selected elements, leaving every other element and every other tensor untouched, with the right-hand side evaluated before the write. Selections that are empty or come from empty dimensions produce empty results, and selectors out of range or numbers of elements that do not match are rejected by ending the program.",
 ["inputs","histories"],"all ranks 1-6 over small dimensions x all selector combinations x all forms of assignment including aliasing","Tests use only a few selectors on positive indices and never alias source and destination, nor cover empty dimensions.",
 ["src/views/range.cc",D+"tensor_slice.hpp","src/views/matrix_form_d.cc",H+"indices.h"],"lazy odometer of per-dimension selectors, evaluated on read and on assignment",obs="result dims/elements; parent before and after")
p("C04","Reshaping and reordering keep every element in its defined place",
 "Reshape and flatten keep the column-major sequence of elements; squeeze only drops unit dimensions; permuting, transposing and conjugate-transposing move the element at each multi-index to the multi-index with the named indices exchanged (conjugating when asked); changing the size of a dimension keeps the overlapping block and fills the rest with zeros. All of these leave their argument unchanged and reject incompatible sizes or dimension numbers by ending the program.",
 ["inputs"],"all dimension lists up to rank 6 with small extents (including 0 and 1) x all index pairs x real and complex elements","Tests use random samples of shapes, and most skip unit/empty extents and negative dimension numbers.",
 ["src/tensor/tensor_permute_d.cc","src/tensor/tensor_squeeze.cc","src/tensor/tensor_reshape_d.cc","src/tensor/matrix_transpose_d.cc","src/tensor/matrix_adjoint_z.cc","src/tensor/tensor_change_dimension_d.cc"],"block-stride copy loops over collapsed dimensions",obs="result dims/elements, argument afterwards")
p("C05","Tensor contractions equal the defining index sums",
 "For every pair of tensors and every pair of contracted indices (negative numbers counting from the end), the contraction, the conjugating contraction, the insert-in-place contraction and the matrix product equal the sum over the contracted index of the products of the corresponding elements, with the remaining indices in the documented order, for real, complex and mixed operands. The variants that write into a given output give the same value whatever the output held before, even when it shares storage with or is one of the operands; operands are never modified and mismatched extents are rejected.",
 ["inputs"],"all shapes up to rank 4 x rank 4 with small extents (including 0 and 1), all index pairs, all basis/distinct-integer operands, element-type mixes, and output aliasing patterns","Tests compare random samples with a slow version; special-cased shapes, unit and empty extents and aliased outputs are not enumerated.",
 ["src/tensor/tensor_fold_dz.cc","src/tensor/tensor_fold_d.cc","src/tensor/tensor_fold_z.cc","src/tensor/tensor_foldin_d.cc","src/tensor/tensor_foldin_z.cc"],"dispatch to matrix-matrix products over collapsed dimensions",obs="result vs definition; operands afterwards")
p("C06","Diagonals, traces, scalings and Kronecker products match their definitions",
 "Building or taking a diagonal, full and partial traces, multiplying along one index by a vector (in place or not), and Kronecker products and sums give for every shape and every argument exactly the elements their definitions prescribe, with element types real or complex. Arguments are not modified except the in-place target, and incompatible sizes are rejected.",
 ["inputs"],"all shapes up to rank 4 with small extents, all diagonals offsets, index pairs and element types","Tests cover main diagonals and random shapes; offsets on non-square shapes and unit/empty extents are not enumerated.",
 ["src/tensor/matrix_diag_d.cc","src/tensor/tensor_take_diag_d.cc","src/tensor/tensor_trace_d.cc","src/tensor/tensor_scale_d.cc","src/tensor/tensor_kron_d.cc","src/tensor/tensor_kron2_sum_d.cc"],"stride loops over collapsed dimensions",obs="result dims/elements")
p("C07","Element-wise arithmetic equals scalar arithmetic, position by position",
 "For all operands (tensor with tensor, tensor with number, number with tensor, in place or not, real, complex and mixed) +, -, *, / and unary minus, and the element-wise functions and complex part/conjugate/assembly operations, give at each position exactly what the scalar operation gives on the elements there, keeping the dimensions; this also holds when the operands are the same tensor or share storage, or when the number is an element of the tensor being updated. Tensors of different dimensions are rejected.",
 ["inputs","histories"],"all operators x operand kinds x type mixes x small shapes x aliasing patterns x a value set with zeros, signs, infinities and NaN","Tests use random finite values without aliasing; each operator/type pair is its own code path.",
 [D+"tensor_ops.hpp",D+"functional.h","src/generated/","src/tensor/tensor_to_complex.cc"],"per-operator loops and in-place operators on shared storage",obs="result elements bitwise/NaN-aware")
p("C08","Comparisons, boolean algebra and reductions match their element-wise meaning",
 "Comparison operators between tensors, index lists and numbers (in either order) give at every position the truth value of the scalar comparison; boolean and/or/not, any/all/none and the list of true positions follow from them; whole-tensor equality is true exactly when dimensions and all elements agree. Sum, mean (global or along one index), minimum, maximum, norms and scalar products equal their definitions on the elements, for every shape.",
 ["inputs"],"all tensors of up to 4 elements over a small value alphabet in every shape, all operators and operand orders","Tests sample random comparisons, in which ties and number-on-the-left forms never occur.",
 ["src/compare/","src/indices/booleans.cc","src/indices/which.cc",H+"indices.h",H+"tensor.h","src/tensor/tensor_mean_ndx_d.cc","src/tensor/matrix_norminf_d.cc"],"one loop per operator; number-on-the-left forms are rewritten to the mirrored operator",obs="returned booleans and numbers")
p("C09","Index lists, sequences and sorting deliver what they promise",
 "Index ranges and linear sequences contain exactly the prescribed values with exact end points and count; concatenation and list-building expressions keep all elements in order and total sizes are the product of the extents; sorting returns an ordered permutation of its input and sort positions are a permutation that sorts it, in either direction, for integers of any magnitude, reals and ties alike. Inputs are not modified.",
 ["inputs"],"all lists up to length 6 over small alphabets (with ties, extremes), all start/stop/step triples in a window, all sequence lengths","Tests use few literals; integers above 2^53, ties and tensor-valued end points are absent.",
 ["src/indices/indices.cc","src/indices/concat.cc","src/indices/linspace_d.cc","src/indices/linspace_z.cc","src/tensor/tensor_sort_i.cc","src/tensor/tensor_sort_d.cc",H+"gen.h"],"comparator-based sort of values and positions; generator expressions",obs="returned lists")
p("C10","Sparse matrices are canonical and equivalent to their dense form",
 "A sparse matrix built from any list of (row, column, value) triplets in any order, from a dense matrix, or by any sequence of library operations keeps a consistent canonical layout (row pointers monotone and complete, columns strictly increasing in range, sizes in agreement; no zeros stored when built from triplets or a dense matrix or as a sum, difference or element-wise product); converting to dense and back is the identity, reading any element gives the dense element, and out-of-range rows, columns and triplets are rejected.",
 ["inputs","histories"],"all zero patterns of small matrices including empty rows, columns and dimensions, all orderings of their triplets, all operation chains to a depth","Tests build random patterns in generated order, and never check the layout invariant of results of operations.",
 [D+"sparse_base.hpp","src/sparse/full_d.cc","src/sparse/sparse_d.cc",H+"sparse.h"],"compressed-row storage built by sorting triplets",state="row pointers, columns, data",obs="layout arrays, dense form, element reads")
p("C11","Sparse arithmetic and products agree with dense arithmetic",
 "Every operation on sparse matrices (sum, difference, element-wise and scalar products and quotients, negation, complex parts, conjugation, transposition, adjoint, Kronecker product and sum, products with dense tensors on either side and use as a linear map) gives the same result as the same operation on the dense matrices, for every combination of patterns, shapes and element types, and rejects mismatched shapes.",
 ["inputs"],"all pairs of zero patterns of small matrices (all shapes up to 3x3 incl. empty), all operators, real/complex mixes","Tests use random square matrices; pattern coincidences, empty rows and rectangular shapes are sampled at best.",
 [D+"sparse_ops.hpp","src/sparse/","src/generated/","src/tools/map_sp_d.cc"],"merge loops over compressed rows, row-wise accumulation",obs="dense form of the result")
p("C12","Data files return exactly what was written",
 "For every sequence of values (integers, reals, complex numbers, tensors of any shape including empty, and lists of tensors) written with any names under any file mode, possibly in several sessions, reading the records back in order yields identical types, names, dimensions and bit-identical elements (a record's name is identified by its first 63 characters); asking for another name or kind of record is rejected by ending the program without modifying the file.",
 ["histories"],"all sequences of writes up to a depth over a catalogue of record kinds x names x modes x session boundaries, read back in all kinds","Tests write a few fixed sequences; names at the length limit, appended sessions and wrong-kind reads are not combined.",
 ["src/sdf/odata_file.cc","src/sdf/idata_file.cc","src/sdf/data_file.cc",H+"sdf.h"],"tagged sequential binary records behind a header",state="bytes of the file",obs="values read back; file bytes")
p("C13","Replace-on-close files are atomic at every crash point",
 "When a data file is rewritten in the mode that replaces it only when finished, then at every instant, whatever point the writer is killed or an I/O call fails at, the file name refers either to the complete old contents or to the complete new contents (or does not exist only if it did not exist before); a job record file therefore exists only if it is complete. A failed call that keeps the new contents from being installed is reported by ending the program with an error.",
 ["crash_points","fault_sequences"],"a kill immediately before and after every file-system call of every history of writes, from every initial directory state, plus a failure injected into each call","Tests never interrupt a writer.",
 ["src/sdf/data_file.cc","src/sdf/rename_file.cc","src/sdf/odata_file.cc","src/tools/jobs_dataset.cc"],"write to a temporary name, then rename on close",state="directory entries and file bytes",obs="directory state after every file-system call")
p("C14","Damaged data files are never read as if they were intact",
 "Reading a data file that ends early or whose header or record tags do not match is always reported by ending the program with an error, never by returning values that were not written or by reading or writing outside memory: a truncated file yields only records that are completely present.",
 ["fault_sequences","crash_points"],"every truncation point of files holding every kind of record, every single-byte corruption of header and tags","Tests only read well-formed files.",
 ["src/sdf/idata_file.cc"],"sequential reads with error checks",obs="values returned or program end")
p("C15","Shared data files have one owner at a time",
 "Among any number of processes that open the same data file in shared mode, at most one holds it open at any moment and records from different sessions never interleave; every process that keeps trying eventually gets the file once the others have closed it, and nothing that a finished session wrote is lost, also when some other process was killed at any point other than in the middle of a write.",
 ["schedules","crash_points"],"all interleavings of the locking system calls of two and three processes opening and closing the file repeatedly, with kills at any call","Tests never run two processes on one file.",
 ["src/sdf/data_file.cc","src/sdf/odata_file.cc"],"advisory lock on a side file that is removed on release",state="lock file inodes and lock owners",obs="overlap of open sessions; file contents")
p("C16","Job splitting covers every parameter combination exactly once",
 "For every set of variables and job options, the number of jobs is the product of the numbers of values; running all blocks, all single jobs, or any consecutive set of intervals visits every combination of variable values exactly once, each job number always means the same combination, variables given on the command line or in a file mean the same, and inconsistent or malformed options are rejected instead of running wrong jobs.",
 ["configurations"],"all variable lists up to 3 variables and small step counts x all block counts and block numbers, all intervals, all single jobs, option orders, file/command-line forms","Tests check a few option combinations; the block arithmetic and mixed-radix decoding are not enumerated.",
 ["src/tools/jobs.cc",H+"jobs.h","src/tools/jobs_save.cc"],"mixed-radix job numbering and block partition arithmetic",state="current, first and last job",obs="sequence of visited jobs and variable values")
p("C17","Linear solvers return solutions of the equations",
 "Solving a system with an invertible matrix (direct and least-squares solvers, real and complex, one or several right-hand sides of any rank) returns x with A x = b to rounding accuracy; the conjugate gradient solver does so for every Hermitian positive definite matrix (dense, sparse or given as a map) to the requested tolerance, from any start; the least-squares solver returns the minimum-norm minimum-residual solution for any matrix, singular or rectangular ones included, leaving out the singular values below the tolerance relative to the largest one. A matrix with a null row or column is rejected by the direct solver. Matrix and right-hand side are left untouched and inconsistent shapes are rejected.",
 ["inputs"],"all matrices with entries in a small alphabet up to 3x3 (and structured larger ones), all unit and small right-hand sides","Tests use random well-conditioned matrices, so degenerate, permuted, singular and rectangular cases never arise.",
 ["src/linalg/solve_d.cc","src/linalg/solve_z.cc","src/linalg/solve_with_svd_d.cc","src/linalg/cgs_d.cc"],"LAPACK drivers and conjugate gradients",obs="residuals, arguments afterwards")
p("C18","Singular value decompositions reconstruct their matrix",
 "For every matrix, the singular values are non-negative, in non-increasing order, and U diag(s) V reproduces the matrix with U and V having orthonormal columns and rows of the requested (full or economic) sizes, whichever outputs are requested; the block variant gives the same singular values and reconstruction. The argument is left untouched.",
 ["inputs"],"all matrices up to 3x3 over a small alphabet, all shapes, both modes, all output requests, real and complex, block-diagonal structures up to row/column permutation","Tests use random full matrices and never rank-deficient, permuted-block or rectangular-economic cases.",
 ["src/linalg/svd_d.cc","src/linalg/svd_z.cc","src/linalg/block_svd.hpp"],"LAPACK driver; connected-block detection and per-block decomposition",obs="factors")
p("C19","Eigenvalue routines return true eigenpairs; the exponential is exact",
 "For every square matrix the computed eigenvalues are those of the matrix with multiplicity, each returned right vector satisfies A r = d r and the left vectors L satisfy adjoint(L) A = D adjoint(L); symmetric and Hermitian matrices give real ordered eigenvalues with orthonormal vectors; the partial solvers return the requested number of eigenvalues, those chosen by the requested criterion, with their right eigenvectors, from dense, sparse or functional form (for more than four dimensions, where a Krylov method is used, of matrices whose chosen eigenvalues are not repeated); power iteration returns the dominant eigenpair when it is separated from the others; the matrix exponential equals the exponential series to the accuracy of the order of approximation. Arguments are left untouched and non-square arguments are rejected.",
 ["inputs"],"all matrices up to 3x3 over a small alphabet, structured larger ones, all selection criteria and counts","Tests use diagonal, random or symmetric matrices where left and right eigenvectors and orderings cannot be told apart.",
 ["src/linalg/eig_d.cc","src/linalg/eig_z.cc","src/linalg/eig_sym_d.cc","src/linalg/expm_d.cc","src/arpack/","src/linalg/eig_power.hpp"],"LAPACK and ARPACK drivers, power iteration, Pade approximation",obs="eigenpair residuals, order and count")
p("C20","Fourier transforms equal the discrete Fourier sum",
 "Forward and inverse transforms over all, one, or a chosen subset of indices equal the discrete Fourier sum (forward exp(-2 pi i jk/n), inverse exp(+2 pi i jk/n), neither of them normalised) for every shape, in and out of place give the same values up to rounding, inverse after forward restores the input times the number of elements transformed, tensors without elements stay so, and the frequency shift moves every frequency to its documented place with the inverse shift undoing it for even and odd lengths. Arguments of the out-of-place versions and all tensors sharing storage with an in-place argument are left untouched.",
 ["inputs"],"all shapes up to rank 4 with small extents, all index subsets and directions, all unit-basis inputs (complete by linearity)","Tests use a few sizes with fixed inputs and no sharing.",
 ["src/fftw/fftw.cc","src/fftw/fftw_inplace.cc","src/fftw/fftshift.cc","src/fftw/fftw_common.hpp"],"FFTW plans over guru dimensions; block moves for shifts",obs="result vs definition; sharers of the argument")
p("C21","Random numbers are reproducible and stay in range",
 "Setting a seed fully determines all later random numbers of every type, in every interleaving of draws of different types and sizes: they equal the reference generator's stream; numbers drawn below a limit are never negative nor reach the limit, reals lie in the documented half-open interval, and random tensors have the requested shape.",
 ["histories","inputs"],"all draw sequences up to a depth x seeds x limits including the extremes; all generator states across several refills","Tests draw samples and check loose statistics.",
 ["src/rand/rand.cc","src/rand/rand64.cc",H+"rand.h","src/rand/mt.h"],"Mersenne-Twister state refilled in blocks, mapped to each type",state="generator state",obs="numbers returned")
p("C22","Operations leave no memory or descriptors behind",
 "After any public operation - or sequence of two on one value - on operands of any shape, real or complex, with owned, shared or foreign storage, and after any use of files, jobs or Krylov iterations (finished, abandoned or refused), once the values produced are gone no heap block and no file descriptor remains that was not there before, apart from tables built once on first use.",
 ["histories","inputs"],"every operation x shape x storage state; all two-step histories; every stage at which an iteration or a file is abandoned; each counted after a steady state","Tests never count memory; a leak on one path fails nothing.",
 ["src/linalg/*","src/fftw/*","src/arpack/*","src/tensor/*","src/sparse/*","src/views/*","src/sdf/*",H+"refcount.h"],"every function has to release temporaries on each of its paths",state="heap blocks, open descriptors",obs="blocks and descriptors alive after the values are gone")
p("C23","The Python reader returns what the library wrote",
 "python/sdf.py returns, for every file written by the library, a dictionary with the last record of each name, with the shape, element type, values and element order written (lists keep their order), whatever the order, names and sizes of records, the modes and sessions used, and the byte order and integer size declared in the header; data sets are stacked along a new last axis and sorted by a field on request; a file that ends early or holds an unknown tag raises an exception instead of yielding values nobody wrote.",
 ["histories","inputs"],"all sequences of records up to a length x modes x sessions; names; byte orders and integer sizes; every truncation point","The repository has no test for the Python reader at all.",
 ["python/sdf.py","src/sdf/odata_file.cc","src/sdf/data_file.cc"],"independent second implementation of the file format",state="file contents",obs="dictionary returned or exception")
p("C24","Krylov eigenvalue drivers follow their protocol from every state",
 "For every history of calls on the reverse-communication eigenvalue drivers, calls that are allowed in the current state take effect and the others are refused without changing anything: tolerance, iteration limit and start vector can only be given before the first update, the data only after the iteration finished, and an unfinished update always asks for one more product. Allowed calls that are not part of the iteration do not change its result; the finished iteration gives the requested number of eigenvalues chosen by the criterion, each with its normalised eigenvector, whatever the form in which the products are passed, the start, or other iterations abandoned before or (of another element type) running at the same time. Tolerances and iteration limits are respected and reported, impossible sizes, criteria and counts are refused, and the ordering helper sorts every list of values by every criterion.",
 ["histories","inputs"],"all words of calls up to a length at every stage of the iteration, all interleavings of two iterations, all small lists of values","Tests drive the classes only through eigs(), always in the same order of calls.",
 ["src/arpack/arpack_t.cc","src/arpack/arpack_d.cc","src/arpack/arpack_z.cc",H+"arpack_d.h",H+"arpack_z.h"],"reverse communication with a status automaton around the Fortran drivers",state="status, workspace, iteration count",obs="status returned, refusals, eigenpairs, bits of the result")
p("C25","Job campaigns complete one data set under every schedule and after kills",
 "When the processes of a campaign, each running one block of the jobs (or one job after another), open the records of one common data set, then under every schedule of their file-system calls, also when the directory does not exist yet and they race to make it: every process ends well, each job is carried out by its process and by no other, every record is at every moment either absent or complete, at the end all records are there with the values of their own job, and records that were there before are left untouched and their jobs not repeated. If a process is killed at any point, starting it again (and nothing else) completes the data set.",
 ["schedules","crash_points"],"all interleavings of the file-system calls of 2-4 processes up to a preemption bound, a kill before every call with the restart, initial sets with every subset of the records","Tests open a data set from one process, and never race or kill.",
 ["src/tools/jobs_dataset.cc","src/tools/jobs.cc","src/sdf/make_directory.cc","src/sdf/data_file.cc",H+"jobs.h"],"one file per job, opened in paranoid mode inside a directory made on demand",state="directory entries of the data set, processes",obs="records at every step and at the end, jobs carried out")
p("C26","Maps and closures compute what the wrapped object does, with values of their own",
 "A matrix wrapped as a map (dense or sparse, real or complex, transposed or not) yields the product of the matrix, as it was when it was wrapped, with any vector; a function with one to five bound arguments gives the function of the argument and the bound values, as they were when they were bound, each in its place, however often it is called, copied, or used through a map; the plain map is the identity. Arguments are left untouched.",
 ["inputs","histories"],"all matrices up to 3x3 over small alphabets with all unit and small operands, all arities and argument values, changes of the original after wrapping","Tests use maps only as arguments of solvers, with matrices that do not change.",
 [H+"map.h",D+"functional.h"],"adaptor objects that copy what they wrap",obs="results of the map before and after the original changes")
p("C27","Text output, number helpers and option flags are exact",
 "Writing a tensor, index list or its matrix form shows every element, in order and in the format of the stream, for every shape including those without elements, and leaves the state of the stream as it was; a complex number written with full precision is read back exactly and reading stops behind it; the elementary functions of real and complex numbers (parts, conjugate, absolute square, square, rounding, construction) have their values for all special numbers; option flags keep the values last set, give distinct keys, and refuse unknown ones.",
 ["inputs","histories"],"all shapes to rank 4 with extents 0-3, all short words over special numbers x stream formats, all histories of flag operations to a depth","The repository has no tests of output, flags or special numbers.",
 [H+"io.h","src/views/matrix_form.cc",H+"numbers.h",H+"flags.h","src/tools/flags.cc"],"stream operators, inline helpers and a vector of values",obs="text, stream state, numbers, refusals")
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
