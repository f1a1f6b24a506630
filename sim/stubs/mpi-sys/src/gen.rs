// Generated: calls that the simulator does not model.
use super::*;
pub unsafe fn MPI_Cart_coords(comm: MPI_Comm, rank: c_int, maxdims: c_int, coords: *mut c_int,) -> c_int { panic!("MPI_Cart_coords is not simulated") }
pub unsafe fn MPI_Cart_create(old_comm: MPI_Comm, ndims: c_int, dims: *const c_int, periods: *const c_int, reorder: c_int, comm_cart: *mut MPI_Comm,) -> c_int { panic!("MPI_Cart_create is not simulated") }
pub unsafe fn MPI_Cart_get(comm: MPI_Comm, maxdims: c_int, dims: *mut c_int, periods: *mut c_int, coords: *mut c_int,) -> c_int { panic!("MPI_Cart_get is not simulated") }
pub unsafe fn MPI_Cart_map(comm: MPI_Comm, ndims: c_int, dims: *const c_int, periods: *const c_int, newrank: *mut c_int,) -> c_int { panic!("MPI_Cart_map is not simulated") }
pub unsafe fn MPI_Cart_rank(comm: MPI_Comm, coords: *const c_int, rank: *mut c_int,) -> c_int { panic!("MPI_Cart_rank is not simulated") }
pub unsafe fn MPI_Cart_shift(comm: MPI_Comm, direction: c_int, disp: c_int, rank_source: *mut c_int, rank_dest: *mut c_int,) -> c_int { panic!("MPI_Cart_shift is not simulated") }
pub unsafe fn MPI_Cart_sub(comm: MPI_Comm, remain_dims: *const c_int, new_comm: *mut MPI_Comm,) -> c_int { panic!("MPI_Cart_sub is not simulated") }
pub unsafe fn MPI_Cartdim_get(comm: MPI_Comm, ndims: *mut c_int,) -> c_int { panic!("MPI_Cartdim_get is not simulated") }
pub unsafe fn MPI_Comm_create(comm: MPI_Comm, group: MPI_Group, newcomm: *mut MPI_Comm,) -> c_int { panic!("MPI_Comm_create is not simulated") }
pub unsafe fn MPI_Comm_create_group(comm: MPI_Comm, group: MPI_Group, tag: c_int, newcomm: *mut MPI_Comm,) -> c_int { panic!("MPI_Comm_create_group is not simulated") }
pub unsafe fn MPI_Comm_get_name(comm: MPI_Comm, comm_name: *mut c_char, resultlen: *mut c_int,) -> c_int { panic!("MPI_Comm_get_name is not simulated") }
pub unsafe fn MPI_Comm_group(comm: MPI_Comm, group: *mut MPI_Group) -> c_int { panic!("MPI_Comm_group is not simulated") }
pub unsafe fn MPI_Comm_remote_group(comm: MPI_Comm, group: *mut MPI_Group) -> c_int { panic!("MPI_Comm_remote_group is not simulated") }
pub unsafe fn MPI_Comm_remote_size(comm: MPI_Comm, size: *mut c_int,) -> c_int { panic!("MPI_Comm_remote_size is not simulated") }
pub unsafe fn MPI_Comm_set_name(comm: MPI_Comm, comm_name: *const c_char,) -> c_int { panic!("MPI_Comm_set_name is not simulated") }
pub unsafe fn MPI_Comm_spawn(command: *const c_char, argv: *mut *mut c_char, maxprocs: c_int, info: MPI_Info, root: c_int, comm: MPI_Comm, intercomm: *mut MPI_Comm, array_of_errcodes: *mut c_int,) -> c_int { panic!("MPI_Comm_spawn is not simulated") }
pub unsafe fn MPI_Comm_spawn_multiple(count: c_int, array_of_commands: *mut *mut c_char, array_of_argv: *mut *mut *mut c_char, array_of_maxprocs: *const c_int, array_of_info: *const MPI_Info, root: c_int, comm: MPI_Comm, intercomm: *mut MPI_Comm, array_of_errcodes: *mut c_int,) -> c_int { panic!("MPI_Comm_spawn_multiple is not simulated") }
pub unsafe fn MPI_Comm_split_type(comm: MPI_Comm, split_type: c_int, key: c_int, info: MPI_Info, newcomm: *mut MPI_Comm,) -> c_int { panic!("MPI_Comm_split_type is not simulated") }
pub unsafe fn MPI_Group_compare(group1: MPI_Group, group2: MPI_Group, result: *mut c_int,) -> c_int { panic!("MPI_Group_compare is not simulated") }
pub unsafe fn MPI_Group_difference(group1: MPI_Group, group2: MPI_Group, newgroup: *mut MPI_Group,) -> c_int { panic!("MPI_Group_difference is not simulated") }
pub unsafe fn MPI_Group_excl(group: MPI_Group, n: c_int, ranks: *const c_int, newgroup: *mut MPI_Group,) -> c_int { panic!("MPI_Group_excl is not simulated") }
pub unsafe fn MPI_Group_free(group: *mut MPI_Group) -> c_int { panic!("MPI_Group_free is not simulated") }
pub unsafe fn MPI_Group_incl(group: MPI_Group, n: c_int, ranks: *const c_int, newgroup: *mut MPI_Group,) -> c_int { panic!("MPI_Group_incl is not simulated") }
pub unsafe fn MPI_Group_intersection(group1: MPI_Group, group2: MPI_Group, newgroup: *mut MPI_Group,) -> c_int { panic!("MPI_Group_intersection is not simulated") }
pub unsafe fn MPI_Group_rank(group: MPI_Group, rank: *mut c_int,) -> c_int { panic!("MPI_Group_rank is not simulated") }
pub unsafe fn MPI_Group_size(group: MPI_Group, size: *mut c_int,) -> c_int { panic!("MPI_Group_size is not simulated") }
pub unsafe fn MPI_Group_translate_ranks(group1: MPI_Group, n: c_int, ranks1: *const c_int, group2: MPI_Group, ranks2: *mut c_int,) -> c_int { panic!("MPI_Group_translate_ranks is not simulated") }
pub unsafe fn MPI_Group_union(group1: MPI_Group, group2: MPI_Group, newgroup: *mut MPI_Group,) -> c_int { panic!("MPI_Group_union is not simulated") }
pub unsafe fn MPI_Intercomm_merge(intercomm: MPI_Comm, high: c_int, newintercomm: *mut MPI_Comm,) -> c_int { panic!("MPI_Intercomm_merge is not simulated") }
pub unsafe fn MPI_Ireduce_scatter_block(sendbuf: *const c_void, recvbuf: *mut c_void, recvcount: c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm, request: *mut MPI_Request,) -> c_int { panic!("MPI_Ireduce_scatter_block is not simulated") }
pub unsafe fn MPI_Reduce_scatter_block(sendbuf: *const c_void, recvbuf: *mut c_void, recvcount: c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm,) -> c_int { panic!("MPI_Reduce_scatter_block is not simulated") }
