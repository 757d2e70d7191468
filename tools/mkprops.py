import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
CX=["comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi3/comex.c","comex/src-armci/armci.c"]
p("C01","ComEx/ARMCI put and get move exactly the described bytes on every MPI port",
 "A contiguous, strided or vector (I/O-vector) put makes the described remote bytes equal to the described local bytes and a get does the reverse, for every target (self, same node, other node), number of stride levels, stride, count, size and message-protocol setting. No other byte of the remote or local memory changes, and the blocking call returns only when the local buffer may be reused (put) or holds the data (get).",
 ["inputs","configurations","schedules"],"all transfer shapes x 5 ComEx MPI ports x node topologies x protocol/threshold settings x MPI send-completion modes",
 "The shipped tests run on one node with default thresholds, so the inter-node packed, datatype, iov, eager and chunked paths of mpi-pr/mpi-pt/mpi-mt are never executed and only a few shapes are sampled.",
 CX,[("put/get request handlers and packed/datatype/iov variants","comex/src-mpi-pr/comex.c"),("active-message queue","comex/src-mpi/comex.c"),("RMA datatypes","comex/src-mpi3/comex.c"),("stride iteration","comex/src-armci/iterator.c")],obs=["comex_put*/comex_get*","ARMCI_Put*/Get*"])
p("C02","Accumulate is atomic and exact for every type, shape, target and schedule",
 "When any number of processes concurrently accumulate (contiguous, strided or vector) into overlapping remote memory, the final contents are the initial contents plus every scaled contribution exactly once, for int, long, float, double, complex and double-complex data. Accumulates of different elements do not disturb each other or bytes outside the described destination.",
 ["schedules","inputs","configurations"],"all interleavings up to the deviation bound of 2-3 origins on one target; all datatypes and transfer shapes in the enumerated set; all ports",
 "Tests run a handful of free-running schedules on one node; a lost update needs one specific interleaving or a remote-node protocol path.",
 CX+["comex/src-common/acc.h"],[("acc handlers, semaphores around shared-memory acc","comex/src-mpi-pr/comex.c"),("type dispatch","comex/src-common/acc.h")],obs=["comex_acc*","ARMCI_Acc*","NGA_Acc"])
p("C03","Read-modify-write operations are atomic and linearizable",
 "Concurrent fetch-and-add and swap operations (int and long) on the same location behave as if executed one at a time in an order consistent with real time: fetch-and-add hands out every intermediate value exactly once and swaps form a single chain. The same holds for GA_Read_inc counters.",
 ["schedules","configurations"],"all interleavings up to the deviation bound of 2-4 processes with up to 2 operations each, on every ComEx MPI port and node topology",
 "perf_amo and a few GA tests exercise one free-running schedule on one node and only check the final total.",
 CX+["global/src/onesided.c"],[("fetch_and_add/swap handlers","comex/src-mpi-pr/comex.c"),("MPI_Fetch_and_op","comex/src-mpi3/comex.c"),("read_inc","global/src/onesided.c")],obs=["comex_rmw","ARMCI_Rmw","NGA_Read_inc"])
p("C04","Mutexes give mutual exclusion, progress and visibility",
 "At most one process holds a given ARMCI/ComEx/GA mutex at any time, different mutexes (and equal numbers on different hosts) are independent, and every waiting locker obtains the mutex after finitely many unlocks in every schedule. Data fenced before an unlock is visible to the next holder, and mutex sets can be created with per-process counts, destroyed and created again.",
 ["schedules","histories"],"all interleavings up to the deviation bound of 2-3 contenders x lock/unlock sequences x owners x ports",
 "Tests take a lock in one free-running schedule; queue hand-over with 2+ waiters, or with waiters on several mutexes of one host, depends on message arrival order.",
 CX+["global/src/onesided.c"],[("lock queues at the owner","comex/src-mpi/comex.c"),("lq_progress","comex/src-mpi-pr/comex.c"),("MPI-3 mutex queue","comex/src-mpi3/comex.c")],obs=["comex_lock/unlock","ARMCI_Lock","GA_Lock"])
p("C05","Fence, barrier and sync complete all earlier one-sided operations",
 "After a fence towards a process (or all), or a barrier/GA_Sync, every put and accumulate issued before it is visible to any process that is causally after it, and operations of one process to the same remote location take effect in program order. A barrier/sync is left by nobody before everybody has entered it, for the world and for any group.",
 ["schedules","configurations"],"all interleavings up to the deviation bound of put/acc + fence/barrier + notification programs on 2-4 processes, eager and rendezvous message modes, lazy and reordered RMA completion, all ports",
 "On one host with immediate delivery a missing completion is almost never observable.",
 CX+["global/src/base.c"],[("fence counters/requests","comex/src-mpi/comex.c"),("fence handler","comex/src-mpi-pr/comex.c"),("win flush","comex/src-mpi3/comex.c"),("armci barrier","comex/src-armci/message.c")],obs=["comex_fence_*","comex_barrier","ARMCI_AllFence","GA_Sync"])
p("C06","Non-blocking operations complete exactly when wait/test says so",
 "After a wait on a non-blocking put, get or accumulate (contiguous, strided, vector; explicit or implicit handle; GA or ARMCI level) the local buffer is reusable or holds the data, and once fenced the remote side is updated; a successful test implies the same. Any number of operations may be outstanding, handles may be waited for in any order and reused, and a pending operation never changes the result of another.",
 ["schedules","histories","configurations"],"all issue/wait/test orders of up to 4 outstanding operations, handle-table sizes 1-4, all schedules up to the deviation bound, all ports",
 "Tests use few outstanding operations with in-order waits; handle-table wrap-around and out-of-order completion are not reached.",
 CX+["global/src/nbutil.c"],[("nb handle table","comex/src-mpi-pr/comex.c"),("GA handle list","global/src/nbutil.c")],obs=["comex_nb*","comex_wait/test","NGA_Nb*"])
p("C07","One-sided programs always make progress: no deadlock or lost message",
 "Every correct program of one-sided operations, mutexes, fences, barriers, group and memory collectives terminates in every schedule, whether the underlying MPI buffers messages or not, and whatever the message arrival order between different senders. Termination leaves no unreceived message, pending request or running server behind, and finalize terminates.",
 ["schedules","programs","configurations"],"all 2-operation programs per process over the operation alphabet on 2-3 processes x eager/rendezvous x schedules up to the deviation bound, all ports",
 "Tests observe one timing; circular waits need two processes serving each other at a particular point and unbuffered sends.",
 CX,[("progress loop","comex/src-mpi/comex.c"),("progress servers","comex/src-mpi-pr/comex.c"),("server threads","comex/src-mpi-mt/comex.c")],obs=["all ARMCI/ComEx calls"])
p("C08","Process groups: ranks translate consistently and groups do not interfere",
 "A group created from any list of distinct members in any order has exactly these members, rank translation between group, parent and world is the inverse pair of maps given by that list, and nested or concurrently created disjoint groups work. Collectives, barriers, memory allocation and GA operations on a group involve and affect only its members and give the same results as if the group were the whole world.",
 ["inputs","configurations","schedules"],"all non-empty subsets and member orders of up to 4 processes, nested groups, sequences of create/use/free, all ports",
 "Tests use a few fixed groups (halves, mirrored).",
 ["comex/src-mpi/groups.c","comex/src-mpi-pr/groups.c","comex/src-mpi-pt/groups.c","comex/src-mpi-mt/groups.c","comex/src-mpi3/groups.c","comex/src-armci/groups.c","comex/src-armci/message.c","global/src/base.c"],[("group create/translate","comex/src-mpi*/groups.c"),("GA pgroups","global/src/base.c")],obs=["ARMCI_Group_*","GA_Pgroup_*"])
p("C09","Collective memory: allocation is disjoint, addressable and fully released",
 "A collective allocation of any per-process sizes (including zero, on the world or a group) gives every process the same table of remotely usable addresses of disjoint memory, stays usable until freed, and freeing in any order releases it completely without disturbing other allocations. After finalize no shared-memory object, semaphore or window is left.",
 ["histories","configurations"],"all allocate/free sequences up to depth 4-5 over sizes {0, small, large} x world/subgroup x ports x node topologies",
 "Tests allocate and free in stack order with equal sizes on one node and do not look at leftovers.",
 CX+["comex/src-mpi-pr/reg_cache.c","comex/src-mpi-pt/reg_cache.c","comex/src-mpi3/reg_win.c"],[("registration cache","comex/src-mpi-pr/reg_cache.c"),("window list","comex/src-mpi3/reg_win.c")],obs=["comex_malloc/free","ARMCI_Malloc/Free"])
p("G10","The distribution of a global array partitions its index space",
 "For every global array the blocks reported as owned (by process or by block) are pairwise disjoint and cover the index space exactly, agree on every process, and all inquiry calls (distribution, locate, locate_region, owner lookups, process/grid coordinates, block counts, local access pointers and leading dimensions) describe the same partition. This holds for every creation mode: regular with chunk hints, irregular, block-cyclic, ScaLAPACK-style, tiled, tiled-irregular, restricted, with ghosts, and on groups.",
 ["inputs","configurations"],"all shapes with small extents, 1-3(4) dimensions, chunk/block/tile/grid parameters from small sets, process counts 1-6",
 "Tests check a few sizes on 4 processes; partition errors occur for particular extents, process counts and chunk hints.",
 ["global/src/base.c","global/src/decomp.c","global/src/iterator.c","global/src/onesided.c","global/src/global.util.c"],[("ddb, map construction","global/src/decomp.c, base.c"),("locate macros","global/src/base.c"),("block iterators","global/src/iterator.c")],obs=["NGA_Distribution","NGA_Locate","NGA_Locate_region","NGA_Access","NGA_Proc_topology"])
p("G11","Patch put, get and accumulate see one logically shared array",
 "For every data type, dimension count, distribution kind and in-range patch, a put/accumulate/get (blocking or non-blocking, from any process, with any local leading dimensions) has the effect it would have on a single shared reference array: exactly the patch elements are written, added with the scale factor, or returned. Out-of-range patches are rejected rather than silently executed.",
 ["inputs","histories","configurations"],"all patches of all enumerated array shapes x types x distributions x process counts, and operation sequences up to depth 3",
 "Random or corner patches of a few arrays on 4 single-node processes are sampled; boundary-crossing combinations and unusual distributions are not exhausted.",
 ["global/src/onesided.c","global/src/iterator.c","global/src/base.c"],[("range iterator","global/src/iterator.c"),("put/get/acc","global/src/onesided.c")],obs=["NGA_Put","NGA_Get","NGA_Acc","NGA_Access","NGA_Release_update"])
p("G12","Scatter, gather, strided and periodic access equal their element-wise meaning",
 "Gather, scatter and scatter-accumulate of any list of element subscripts (duplicates allowed for gather and scatter-accumulate), strided put/get/accumulate with any skip, and periodic put/get/accumulate with any shift behave exactly like the corresponding element-by-element accesses of the logical array.",
 ["inputs","configurations"],"all short subscript lists over small arrays, all patches x skips, all periodic shifts within two periods, all distribution kinds, several types",
 "Tests use random lists or one stride; periodic wrap in several dimensions and irregular owners are sampled only.",
 ["global/src/onesided.c","global/src/global.periodic.c","global/src/hsort.scat.c"],[("scatter/gather","global/src/onesided.c"),("periodic decomposition","global/src/global.periodic.c")],obs=["NGA_Scatter","NGA_Gather","NGA_Scatter_acc","NGA_Strided_*","NGA_Periodic_*"])
p("G13","Ghost cell updates copy exactly the periodic neighbour data",
 "After a ghost update every ghost cell of every process holds the current value of the array element it mirrors (with periodic wrap-around), in every dimension count, for every width up to the block size and either update method, and no owned element changes. Ordinary put/get/accumulate and patch operations on the array ignore ghost cells.",
 ["inputs","configurations","schedules"],"all width vectors in {0,1,2} x 1-3 dimensions x distributions x types x update routines x process counts, corner flags",
 "ghost tests use one geometry per run and widths that are equal in all dimensions.",
 ["global/src/ghosts.c"],[("ghost update algorithms","global/src/ghosts.c")],obs=["GA_Update_ghosts","NGA_Update_ghost_dir","NGA_Access_ghosts","NGA_Get_ghost_block"])
p("G14","Whole-array and patch collectives equal element-wise evaluation",
 "Fill, zero, copy, scale, add, dot, add/scale constant, abs, reciprocal, elementwise multiply/divide/max/min, shift/scale/set-diagonal, norms and their patch variants produce on the logical array exactly what element-by-element evaluation produces, for all types they support, regardless of how operands are distributed (equal or different distributions, ghosts, block-cyclic, groups). Elements outside the addressed patch keep their value.",
 ["inputs","configurations"],"all patches of enumerated shapes x operand distribution pairs x types x operations",
 "Each test checks one or two patches with identically distributed operands.",
 ["global/src/global.npatch.c","global/src/global.nalg.c","global/src/elem_alg.c","global/src/matrix.c"],[("patch ops","global/src/global.npatch.c"),("element ops","global/src/elem_alg.c")],obs=["NGA_*_patch","GA_Elem_*","GA_Add","GA_Dot","GA_Scale_rows"])
p("G15","Matrix multiply, transpose, copy-with-transpose and symmetrize are exact",
 "For integer-valued data the distributed matrix product (all transpose flags, alpha/beta, whole matrix and any conforming patches), transpose, transposed patch copy and symmetrize give exactly the mathematical result for every shape, distribution and process count.",
 ["inputs","configurations"],"all m,n,k in a small range x transpose flags x alpha/beta in {0,1,2} x types x distributions x process counts, and patches of a fixed shape set",
 "testmatmult checks a few square sizes divisible by the process grid.",
 ["global/src/matmul.c","global/src/ga_symmetr.c","global/src/global.nalg.c","global/src/global.npatch.c"],[("gai_matmul_*","global/src/matmul.c")],obs=["GA_Dgemm","NGA_Matmul_patch","GA_Transpose","GA_Symmetrize","NGA_Copy_patch"])
p("G16","Reductions and broadcasts deliver the exact result on every member",
 "Global sum, product, min, max, absmin, absmax (and or for integers) of any supported type and length, and broadcast from any root of any length, give every member of the world or of any group the exact reduction/broadcast value, and consecutive collectives never mix. The message-layer versions (armci_msg_*, TCGMSG) agree.",
 ["inputs","configurations","schedules"],"all operators x types x lengths around buffer boundaries x roots x groups x process counts 1-5 x schedules up to the deviation bound",
 "Tests use few lengths on 4 processes; tree shapes for other counts and buffer-boundary lengths are not covered.",
 ["global/src/base.c","global/src/collect.c","comex/src-armci/message.c","tcgmsg/tcgmsg-mpi/collect.c"],[("gop/brdcst","comex/src-armci/message.c")],obs=["GA_Gop","GA_Brdcst","GA_Pgroup_dgop","armci_msg_*"])
p("G17","Scan, pack, unpack, enumerate, select and bin primitives are exact",
 "Scan-copy, scan-add (inclusive/exclusive), enumerate, pack, unpack, select_elem (min/max with index), patch_enum, bin_index and bin_sorter give exactly their sequential definition for any mask and sub-range on any distribution, including empty segments and owners with no elements.",
 ["inputs","configurations"],"all masks of arrays up to length 6-8 x all sub-ranges x distributions x process counts x types",
 "Tests check a handful of masks on one length.",
 ["global/src/sparse.c","global/src/select.c"],[("scan/pack/bin","global/src/sparse.c"),("select_elem","global/src/select.c")],obs=["GA_Scan_copy","GA_Scan_add","GA_Pack","GA_Unpack","NGA_Select_elem","GA_Patch_enum"])
p("M18","The MA allocator never overlaps live blocks and accounts exactly",
 "For any sequence of stack and heap operations (push/pop/free-order variants, allocate, get index/pointer, chop, resizing, verify, inquire) every live block is disjoint from all others, aligned and retains its contents, freed space becomes allocatable again with coalescing, a request that fits by the inquiry functions succeeds, and illegal operations (double free, non-LIFO pop, invalid handle, overrun guard) are reported without corrupting other blocks.",
 ["histories","inputs"],"all operation sequences up to depth 5-6 over small sizes, types and alignments",
 "ma/test*.c run fixed sequences.",
 ["ma/ma.c","ma/table.c"],[("block lists, coalescing, guards","ma/ma.c"),("handle table","ma/table.c")],obs=["MA_*"])
p("D19","Disk resident arrays return exactly what was written, sections included",
 "For any shape, type, process count, I/O-server configuration and file layout, writing any section of a global array to a disk resident array and reading any section back (same or other run, same or different distribution) returns exactly the last written values, and never-written or other sections are unaffected. Non-blocking requests complete at wait, and any supported number may be outstanding.",
 ["inputs","histories","configurations"],"all small shapes x all write/read section pairs, sequences of 2-3 requests, close/reopen points",
 "DRA tests use a few large aligned shapes.",
 ["pario/dra/disk.arrays.c","pario/dra/buffers.c","pario/dra/patch.util.c","pario/dra/disk.param.c"],[("layout, chunking, section intersection","pario/dra/disk.arrays.c")],obs=["NDRA_Create","NDRA_Write*","NDRA_Read*","DRA_Wait","DRA_Open/Close"])
p("D20","ELIO/EAF/SF file operations behave like a byte array, also under short I/O",
 "Synchronous and asynchronous reads and writes through ELIO, exclusive-access files and shared files at any offsets and lengths behave like operations on one byte array per file, also when the operating system transfers fewer bytes than asked or interrupts the call; end of file and errors are reported, never silent data loss. Length, truncate, probe/wait and delete agree with that model.",
 ["histories","fault_sequences","inputs"],"all operation sequences up to depth 3-4 over small offsets/lengths x all placements of up to 2 short transfers/interruptions",
 "The tests never see a short read/write and use large aligned transfers.",
 ["pario/elio/elio.c","pario/elio/stat.c","pario/eaf/eaf.c","pario/sf/shared.files.c"],[("retry loops","pario/elio/elio.c")],obs=["elio_*","EAF_*","sf_*"])
p("G21","Sparse arrays hold exactly the inserted elements",
 "A sparse array assembled from any distributed set of element insertions contains exactly those elements, its blocks and column/row distribution partition the matrix, and retrieval, diagonal, row/column scaling, shift, sparse-dense and sparse-sparse products equal the dense computation.",
 ["inputs","configurations"],"all small insertion sets split over processes, matrix sizes up to 8x8, process counts 1-4 (6), types and index widths",
 "sprs tests use one Laplacian stencil on 4 processes.",
 ["global/src/sparse.array.c"],[("assemble/distribution","global/src/sparse.array.c")],obs=["NGA_Sprs_array_*"])
p("G22","Array handles, duplication, destruction and memory accounting are consistent",
 "Through any sequence of create, duplicate, set-up calls, destroy and inquiries, live handles refer to independent arrays with their own data, type, dimensions and name, destroyed handles are invalid, and the memory accounted to the process equals that of the live arrays and returns to its initial value. With a memory limit set, an allocation that would exceed it on any process fails on all processes and leaves the system usable.",
 ["histories","configurations"],"all create/duplicate/destroy sequences up to depth 5 x memory limits x failing process",
 "Tests create a few arrays and terminate.",
 ["global/src/base.c","global/src/ga_malloc.c"],[("handle table, GA_memory accounting","global/src/base.c")],obs=["GA_Create*","GA_Duplicate","GA_Destroy","GA_Inquire_memory","GA_Memory_avail","GA_Uses_ma"])
p("T23","TCGMSG messages are matched by type and sender in order, and nxtval is exact",
 "A TCGMSG message is delivered exactly once, unaltered, to a receive with matching type from the requested sender (or any sender), messages of one type between a pair of processes keep their order, asynchronous sends and receives complete at wait, and the reported length and sender are correct. The shared counter hands out consecutive values exactly once, and synch, broadcast and global sums complete with the right values.",
 ["schedules","histories"],"all send/receive/probe programs of 2-3 messages on 2-3 processes x schedules up to the deviation bound x eager/rendezvous",
 "tcgmsg tests run fixed ring patterns in one timing.",
 ["tcgmsg/tcgmsg-mpi/p2p.c","tcgmsg/tcgmsg-mpi/nxtval-armci.c","tcgmsg/tcgmsg-mpi/collect.c","tcgmsg/capi.c"],[("p2p queues","tcgmsg/tcgmsg-mpi/p2p.c"),("nxtval","tcgmsg/tcgmsg-mpi/nxtval-armci.c")],obs=["tcg_snd/rcv/waitcom/probe/nxtval"])
p("G24","Fortran, C and C++ interfaces denote the same elements and operations",
 "The Fortran entry points (1-based, column-major, Fortran logicals and strings), the C entry points (0-based, row-major) and the C++ class methods perform the same operation on the same logical element set: an access through one interface is observed unchanged through the others, for every dimension count and patch.",
 ["inputs","configurations"],"all patches of small 1-4 dimensional arrays x interface pairs x operations in the enumerated alphabet",
 "Each test uses a single interface throughout.",
 ["global/src/capi.c","global/src/fapi.c","ga++/src/GlobalArray.cc","ga++/src/GAServices.cc","ga++/src/PGroup.cc"],[("index reversal","global/src/capi.c"),("string/logical conversion","global/src/fapi.c")],obs=["NGA_*","nga_*_","GA::GlobalArray"])
p("G25","Global pointer arrays keep every object intact and addressable",
 "Objects of varying sizes allocated, assigned to and freed from elements of a global pointer array are returned byte-for-byte by element and patch gets from any process, size inquiries equal the sum of the stored sizes, and unassigned or freed elements have size zero.",
 ["histories","inputs","configurations"],"all assign/put/get/free sequences up to depth 3 over small arrays and object sizes, all patches, process counts 1-4",
 "The gparrays sources are not even built by the default configuration, so no test reaches them.",
 ["gparrays/src/gpbase.c","gparrays/src/gponesided.c","gparrays/src/gpcapi.c"],[("pointer/size arrays","gparrays/src/gponesided.c")],obs=["GP_*"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
