/* generated by tools/mksyn.py: calls of the left name go to the right name while SYNV is set (linked with --wrap) */
int SYNV;
#define S(a, b) __asm__(".text\n.globl __wrap_" #a "\n.type __wrap_" #a ",@function\n__wrap_" #a ":\n\tcmpl $0, SYNV(%rip)\n\tjne 1f\n\tjmp __real_" #a "\n1:\tjmp " #b "\n");
S(GA_Allocate, NGA_Allocate)
S(GA_Compare_distr, NGA_Compare_distr)
S(GA_Create_handle, NGA_Create_handle)
S(GA_Deallocate, NGA_Deallocate)
S(GA_Destroy, NGA_Destroy)
S(GA_Destroy_mutexes, NGA_Destroy_mutexes)
S(GA_Dgop, NGA_Dgop)
S(GA_Duplicate, NGA_Duplicate)
S(GA_Fence, NGA_Fence)
S(GA_Fill, NGA_Fill)
S(GA_Get_block_info, NGA_Get_block_info)
S(GA_Get_pgroup, NGA_Get_pgroup)
S(GA_Get_pgroup_size, NGA_Get_pgroup_size)
S(GA_Get_proc_grid, NGA_Get_proc_grid)
S(GA_Get_proc_index, NGA_Get_proc_index)
S(GA_Igop, NGA_Igop)
S(GA_Init_fence, NGA_Init_fence)
S(GA_Inquire_memory, NGA_Inquire_memory)
S(GA_Inquire_name, NGA_Inquire_name)
S(GA_Lock, NGA_Lock)
S(GA_Mask_sync, NGA_Mask_sync)
S(GA_Memory_avail, NGA_Memory_avail)
S(GA_Memory_limited, NGA_Memory_limited)
S(GA_Nblock, NGA_Nblock)
S(GA_Ndim, NGA_Ndim)
S(GA_Nnodes, NGA_Nnodes)
S(GA_Nodeid, NGA_Nodeid)
S(GA_Overlay, NGA_Overlay)
S(GA_Pgroup_absolute_id, NGA_Pgroup_absolute_id)
S(GA_Pgroup_destroy, NGA_Pgroup_destroy)
S(GA_Pgroup_dgop, NGA_Pgroup_dgop)
S(GA_Pgroup_duplicate, NGA_Pgroup_duplicate)
S(GA_Pgroup_fgop, NGA_Pgroup_fgop)
S(GA_Pgroup_get_default, NGA_Pgroup_get_default)
S(GA_Pgroup_get_world, NGA_Pgroup_get_world)
S(GA_Pgroup_igop, NGA_Pgroup_igop)
S(GA_Pgroup_lgop, NGA_Pgroup_lgop)
S(GA_Pgroup_llgop, NGA_Pgroup_llgop)
S(GA_Pgroup_self, NGA_Pgroup_self)
S(GA_Pgroup_set_default, NGA_Pgroup_set_default)
S(GA_Pgroup_sync, NGA_Pgroup_sync)
S(GA_Pgroup_zgop, NGA_Pgroup_zgop)
S(GA_Set_array_name, NGA_Set_array_name)
S(GA_Set_block_cyclic, NGA_Set_block_cyclic)
S(GA_Set_block_cyclic64, NGA_Set_block_cyclic64)
S(GA_Set_block_cyclic_proc_grid, NGA_Set_block_cyclic_proc_grid)
S(GA_Set_block_cyclic_proc_grid64, NGA_Set_block_cyclic_proc_grid64)
S(GA_Set_chunk, NGA_Set_chunk)
S(GA_Set_chunk64, NGA_Set_chunk64)
S(GA_Set_data, NGA_Set_data)
S(GA_Set_data64, NGA_Set_data64)
S(GA_Set_ghosts, NGA_Set_ghosts)
S(GA_Set_ghosts64, NGA_Set_ghosts64)
S(GA_Set_irreg_distr, NGA_Set_irreg_distr)
S(GA_Set_irreg_distr64, NGA_Set_irreg_distr64)
S(GA_Set_memory_limit, NGA_Set_memory_limit)
S(GA_Set_pgroup, NGA_Set_pgroup)
S(GA_Set_restricted, NGA_Set_restricted)
S(GA_Set_restricted_range, NGA_Set_restricted_range)
S(GA_Set_tiled_irreg_proc_grid, NGA_Set_tiled_irreg_proc_grid)
S(GA_Set_tiled_irreg_proc_grid64, NGA_Set_tiled_irreg_proc_grid64)
S(GA_Set_tiled_proc_grid, NGA_Set_tiled_proc_grid)
S(GA_Set_tiled_proc_grid64, NGA_Set_tiled_proc_grid64)
S(GA_Sync, NGA_Sync)
S(GA_Total_blocks, NGA_Total_blocks)
S(GA_Unlock, NGA_Unlock)
S(GA_Uses_proc_grid, NGA_Uses_proc_grid)
S(GA_Valid_handle, NGA_Valid_handle)
S(GA_Verify_handle, NGA_Verify_handle)
S(GA_Zero, NGA_Zero)
S(NGA_Set_property, GA_Set_property)
S(NGA_Unset_property, GA_Unset_property)
S(ga_abs_value_, nga_abs_value_)
S(ga_abs_value_patch_, nga_abs_value_patch_)
S(ga_add_, nga_add_)
S(ga_add_constant_, nga_add_constant_)
S(ga_add_constant_patch_, nga_add_constant_patch_)
S(ga_add_diagonal_, nga_add_diagonal_)
S(ga_allocate_, nga_allocate_)
S(ga_bin_index_, nga_bin_index_)
S(ga_bin_sorter_, nga_bin_sorter_)
S(ga_brdcst_, nga_brdcst_)
S(ga_copy_, nga_copy_)
S(ga_create_bin_range_, nga_create_bin_range_)
S(ga_create_handle_, nga_create_handle_)
S(ga_ddot_, nga_ddot_)
S(ga_elem_divide_, nga_elem_divide_)
S(ga_elem_divide_patch_, nga_elem_divide_patch_)
S(ga_elem_maximum_, nga_elem_maximum_)
S(ga_elem_maximum_patch_, nga_elem_maximum_patch_)
S(ga_elem_minimum_, nga_elem_minimum_)
S(ga_elem_minimum_patch_, nga_elem_minimum_patch_)
S(ga_elem_multiply_, nga_elem_multiply_)
S(ga_elem_multiply_patch_, nga_elem_multiply_patch_)
S(ga_fill_, nga_fill_)
S(ga_get_diag_, nga_get_diag_)
S(ga_gop_, nga_gop_)
S(ga_idot_, nga_idot_)
S(ga_llt_solve_, nga_llt_solve_)
S(ga_median_, nga_median_)
S(ga_median_patch_, nga_median_patch_)
S(ga_norm1_, nga_norm1_)
S(ga_norm_infinity_, nga_norm_infinity_)
S(ga_pack_, nga_pack_)
S(ga_patch_enum_, nga_patch_enum_)
S(ga_pgroup_absolute_id_, nga_pgroup_absolute_id_)
S(ga_pgroup_create_, nga_pgroup_create_)
S(ga_pgroup_destroy_, nga_pgroup_destroy_)
S(ga_pgroup_duplicate_, nga_pgroup_duplicate_)
S(ga_pgroup_get_default_, nga_pgroup_get_default_)
S(ga_pgroup_gop_, nga_pgroup_gop_)
S(ga_pgroup_nnodes_, nga_pgroup_nnodes_)
S(ga_pgroup_nodeid_, nga_pgroup_nodeid_)
S(ga_pgroup_self_, nga_pgroup_self_)
S(ga_pgroup_set_default_, nga_pgroup_set_default_)
S(ga_pgroup_split_, nga_pgroup_split_)
S(ga_pgroup_split_irreg_, nga_pgroup_split_irreg_)
S(ga_pgroup_sync_, nga_pgroup_sync_)
S(ga_recip_patch_, nga_recip_patch_)
S(ga_scale_, nga_scale_)
S(ga_scale_cols_, nga_scale_cols_)
S(ga_scale_rows_, nga_scale_rows_)
S(ga_scan_add_, nga_scan_add_)
S(ga_scan_copy_, nga_scan_copy_)
S(ga_sdot_, nga_sdot_)
S(ga_set_array_name_, nga_set_array_name_)
S(ga_set_block_cyclic_, nga_set_block_cyclic_)
S(ga_set_block_cyclic_proc_grid_, nga_set_block_cyclic_proc_grid_)
S(ga_set_chunk_, nga_set_chunk_)
S(ga_set_data_, nga_set_data_)
S(ga_set_diagonal_, nga_set_diagonal_)
S(ga_set_ghosts_, nga_set_ghosts_)
S(ga_set_irreg_distr_, nga_set_irreg_distr_)
S(ga_set_pgroup_, nga_set_pgroup_)
S(ga_set_restricted_, nga_set_restricted_)
S(ga_set_tiled_irreg_proc_grid_, nga_set_tiled_irreg_proc_grid_)
S(ga_set_tiled_proc_grid_, nga_set_tiled_proc_grid_)
S(ga_shift_diagonal_, nga_shift_diagonal_)
S(ga_solve_, nga_solve_)
S(ga_spd_invert_, nga_spd_invert_)
S(ga_step_max_, nga_step_max_)
S(ga_step_max_patch_, nga_step_max_patch_)
S(ga_symmetrize_, nga_symmetrize_)
S(ga_transpose_, nga_transpose_)
S(ga_unpack_, nga_unpack_)
S(ga_zero_, nga_zero_)
S(ga_zero_diagonal_, nga_zero_diagonal_)
S(nga_ghost_barrier_, ga_ghost_barrier_)
S(nga_nbtest_, ga_nbtest_)
S(nga_nbwait_, ga_nbwait_)
S(nga_set_ghost_corner_flag_, ga_set_ghost_corner_flag_)
S(nga_set_ghost_info_, ga_set_ghost_info_)
S(nga_update1_ghosts_, ga_update1_ghosts_)
S(nga_update2_ghosts_, ga_update2_ghosts_)
S(nga_update3_ghosts_, ga_update3_ghosts_)
S(nga_update44_ghosts_, ga_update44_ghosts_)
S(nga_update4_ghosts_, ga_update4_ghosts_)
S(nga_update55_ghosts_, ga_update55_ghosts_)
S(nga_update5_ghosts_, ga_update5_ghosts_)
S(nga_update6_ghosts_, ga_update6_ghosts_)
S(nga_update7_ghosts_, ga_update7_ghosts_)
S(nga_update_ghosts_, ga_update_ghosts_)
