#define MESSAGES(X) X(region_info_transfer_t) X(region_lock_in_t) X(region_lock_out_t) X(region_transform_and_lock_in_t) X(region_analysis_and_lock_in_t) X(metadata_query_transfer_in_t) X(metadata_query_transfer_out_t) X(pdc_metadata_transfer_t) X(metadata_add_tag_in_t) X(metadata_get_kvtag_in_t) X(metadata_add_tag_out_t) X(metadata_get_kvtag_out_t) X(metadata_add_kvtag_in_t) X(metadata_update_in_t) X(metadata_update_out_t) X(metadata_delete_by_id_in_t) X(metadata_delete_by_id_out_t) X(metadata_delete_in_t) X(metadata_delete_out_t) X(metadata_query_in_t) X(metadata_query_out_t) X(gen_cont_id_in_t) X(gen_cont_id_out_t) X(gen_obj_id_in_t) X(gen_obj_id_out_t) X(server_lookup_remote_server_in_t) X(server_lookup_remote_server_out_t) X(server_lookup_client_in_t) X(server_lookup_client_out_t) X(client_test_connect_in_t) X(client_test_connect_out_t) X(notify_io_complete_in_t) X(notify_io_complete_out_t) X(notify_region_update_in_t) X(notify_region_update_out_t) X(flush_obj_all_in_t) X(flush_obj_all_out_t) X(obj_reset_dims_in_t) X(obj_reset_dims_out_t) X(flush_obj_in_t) X(flush_obj_out_t) X(close_server_in_t) X(close_server_out_t) X(bulk_rpc_in_t) X(bulk_rpc_out_t) X(get_remote_metadata_in_t) X(get_remote_metadata_out_t) X(buf_map_in_t) X(buf_map_out_t) X(transfer_request_in_t) X(transfer_request_out_t) X(transfer_request_status_in_t) X(transfer_request_status_out_t) X(transfer_request_wait_all_in_t) X(transfer_request_wait_all_out_t) X(transfer_request_all_in_t) X(transfer_request_all_out_t) X(transfer_request_metadata_query_in_t) X(transfer_request_metadata_query_out_t) X(transfer_request_metadata_query2_in_t) X(transfer_request_metadata_query2_out_t) X(transfer_request_wait_in_t) X(transfer_request_wait_out_t) X(buf_unmap_in_t) X(buf_unmap_out_t) X(data_server_read_in_t) X(data_server_read_out_t) X(data_server_write_in_t) X(data_server_write_out_t) X(data_server_read_check_in_t) X(data_server_read_check_out_t) X(data_server_write_check_in_t) X(data_server_write_check_out_t) X(update_region_loc_in_t) X(update_region_loc_out_t) X(get_metadata_by_id_in_t) X(get_metadata_by_id_out_t) X(pdc_serialized_data_t) X(get_storage_info_single_out_t) X(get_storage_info_in_t) X(pdc_int_send_t) X(pdc_int_ret_t) X(pdc_aggregated_io_to_server_t) X(cont_add_del_objs_rpc_in_t) X(cont_add_del_objs_rpc_out_t) X(cont_add_tags_rpc_in_t) X(query_read_obj_name_in_t) X(query_read_obj_name_out_t) X(container_query_in_t) X(container_query_out_t) X(storage_meta_name_query_in_t) X(get_sel_data_rpc_in_t) X(send_nhits_t) X(query_storage_region_transfer_t) X(dart_get_server_info_in_t) X(dart_get_server_info_out_t) X(dart_perform_one_server_in_t) X(dart_perform_one_server_out_t) X(transform_ftn_in_t) X(transform_ftn_out_t) X(analysis_ftn_in_t) X(obj_data_iterator_in_t) X(analysis_ftn_out_t) X(obj_data_iterator_out_t)
#define F_region_info_transfer_t NUM(ndim) NUM(start_0) NUM(start_1) NUM(start_2) NUM(start_3) NUM(count_0) NUM(count_1) NUM(count_2) NUM(count_3)
#define F_region_lock_in_t NUM(meta_server_id) NUM(obj_id) NUM(access_type) NUM(local_reg_id) SUB(region_info_transfer_t, region) NUM(mapping) NUM(data_type) NUM(data_unit) NUM(lock_mode)
#define F_region_lock_out_t NUM(ret)
#define F_region_transform_and_lock_in_t NUM(meta_server_id) NUM(obj_id) NUM(access_type) NUM(local_reg_id) SUB(region_info_transfer_t, region) NUM(mapping) NUM(data_type) NUM(lock_mode) NUM(dest_type) NUM(transform_id) NUM(transform_state) NUM(local_bulk_handle) NUM(transform_data_size) NUM(client_data_ptr)
#define F_region_analysis_and_lock_in_t NUM(meta_server_id) NUM(obj_id) NUM(access_type) NUM(local_reg_id) SUB(region_info_transfer_t, region) NUM(mapping) NUM(data_type) NUM(lock_mode) NUM(analysis_meta_index) NUM(n_args) NUM(output_obj_id) NUM(type_extent) NUM(output_type_extent) NUM(input_iter) NUM(output_iter)
#define F_metadata_query_transfer_in_t NUM(is_list_all) NUM(user_id) STR(app_name) STR(obj_name) NUM(time_step_from) NUM(time_step_to) NUM(ndim) STR(tags) STR(k_query) STR(vfrom_query) STR(vto_query)
#define F_metadata_query_transfer_out_t NUM(ret) NUM(server_time_elapsed) NUM(server_memory_consumption) NUM(bulk_handle)
#define F_pdc_metadata_transfer_t NUM(user_id) STR(app_name) STR(obj_name) NUM(time_step) NUM(cont_id) NUM(obj_id) NUM(data_type) NUM(ndim) NUM(dims0) NUM(dims1) NUM(dims2) NUM(dims3) STR(tags) STR(data_location) NUM(data_server_id) NUM(region_partition) NUM(consistency) NUM(current_state) NUM(t_storage_order) NUM(t_dtype) NUM(t_ndim) NUM(t_dims0) NUM(t_dims1) NUM(t_dims2) NUM(t_dims3) NUM(t_meta_index)
#define F_metadata_add_tag_in_t NUM(obj_id) NUM(hash_value) STR(new_tag)
#define F_metadata_get_kvtag_in_t NUM(obj_id) NUM(hash_value) STR(key)
#define F_metadata_add_tag_out_t NUM(ret)
#define F_metadata_get_kvtag_out_t NUM(ret) SUB(pdc_kvtag_t, kvtag)
#define F_metadata_add_kvtag_in_t NUM(obj_id) NUM(hash_value) SUB(pdc_kvtag_t, kvtag)
#define F_metadata_update_in_t NUM(obj_id) NUM(hash_value) SUB(pdc_metadata_transfer_t, new_metadata)
#define F_metadata_update_out_t NUM(ret)
#define F_metadata_delete_by_id_in_t NUM(obj_id)
#define F_metadata_delete_by_id_out_t NUM(ret)
#define F_metadata_delete_in_t STR(obj_name) NUM(time_step) NUM(hash_value)
#define F_metadata_delete_out_t NUM(ret)
#define F_metadata_query_in_t STR(obj_name) NUM(hash_value) NUM(time_step)
#define F_metadata_query_out_t SUB(pdc_metadata_transfer_t, ret)
#define F_gen_cont_id_in_t STR(cont_name) NUM(hash_value)
#define F_gen_cont_id_out_t NUM(cont_id)
#define F_gen_obj_id_in_t SUB(pdc_metadata_transfer_t, data) NUM(hash_value) NUM(data_type)
#define F_gen_obj_id_out_t NUM(obj_id)
#define F_server_lookup_remote_server_in_t NUM(server_id)
#define F_server_lookup_remote_server_out_t NUM(ret)
#define F_server_lookup_client_in_t NUM(server_id) NUM(nserver) STR(server_addr)
#define F_server_lookup_client_out_t NUM(ret)
#define F_client_test_connect_in_t NUM(client_id) NUM(nclient) NUM(is_init) STR(client_addr)
#define F_client_test_connect_out_t NUM(ret)
#define F_notify_io_complete_in_t NUM(io_type) NUM(obj_id) STR(shm_addr)
#define F_notify_io_complete_out_t NUM(ret)
#define F_notify_region_update_in_t NUM(obj_id) NUM(reg_id)
#define F_notify_region_update_out_t NUM(ret)
#define F_flush_obj_all_in_t NUM(tag)
#define F_flush_obj_all_out_t NUM(ret)
#define F_obj_reset_dims_in_t STR(obj_name) NUM(hash_value) NUM(time_step) NUM(dims0) NUM(dims1) NUM(dims2) NUM(ndim)
#define F_obj_reset_dims_out_t NUM(ret)
#define F_flush_obj_in_t NUM(obj_id)
#define F_flush_obj_out_t NUM(ret)
#define F_close_server_in_t NUM(client_id)
#define F_close_server_out_t NUM(ret)
#define F_bulk_rpc_in_t NUM(cnt) NUM(total) NUM(origin) NUM(seq_id) NUM(seq_id2) NUM(op_id) NUM(ndim) NUM(obj_id) NUM(data_type) OPT(bulk_handle, cnt)
#define F_bulk_rpc_out_t NUM(ret)
#define F_get_remote_metadata_in_t NUM(obj_id)
#define F_get_remote_metadata_out_t SUB(pdc_metadata_transfer_t, ret)
#define F_buf_map_in_t NUM(meta_server_id) NUM(local_reg_id) NUM(remote_obj_id) NUM(local_type) NUM(remote_type) NUM(ndim) NUM(remote_unit) NUM(local_bulk_handle) SUB(region_info_transfer_t, remote_region_unit) SUB(region_info_transfer_t, remote_region_nounit) SUB(region_info_transfer_t, local_region)
#define F_buf_map_out_t NUM(ret)
#define F_transfer_request_in_t NUM(local_bulk_handle) SUB(region_info_transfer_t, remote_region) NUM(obj_id) NUM(obj_dim0) NUM(obj_dim1) NUM(obj_dim2) NUM(remote_unit) NUM(obj_ndim) NUM(meta_server_id) NUM(access_type)
#define F_transfer_request_out_t NUM(metadata_id) NUM(ret)
#define F_transfer_request_status_in_t NUM(transfer_request_id)
#define F_transfer_request_status_out_t NUM(status) NUM(ret)
#define F_transfer_request_wait_all_in_t NUM(local_bulk_handle) NUM(total_buf_size) NUM(n_objs)
#define F_transfer_request_wait_all_out_t NUM(ret)
#define F_transfer_request_all_in_t NUM(local_bulk_handle) NUM(total_buf_size) NUM(n_objs) NUM(access_type)
#define F_transfer_request_all_out_t NUM(metadata_id) NUM(ret)
#define F_transfer_request_metadata_query_in_t NUM(local_bulk_handle) NUM(total_buf_size) NUM(n_objs) NUM(is_write)
#define F_transfer_request_metadata_query_out_t NUM(query_id) NUM(total_buf_size) NUM(ret)
#define F_transfer_request_metadata_query2_in_t NUM(local_bulk_handle) NUM(total_buf_size) NUM(query_id)
#define F_transfer_request_metadata_query2_out_t NUM(ret)
#define F_transfer_request_wait_in_t NUM(transfer_request_id) NUM(access_type)
#define F_transfer_request_wait_out_t NUM(ret)
#define F_buf_unmap_in_t NUM(meta_server_id) NUM(remote_obj_id) NUM(remote_reg_id) SUB(region_info_transfer_t, remote_region)
#define F_buf_unmap_out_t NUM(ret)
#define F_data_server_read_in_t NUM(client_id) NUM(nclient) NUM(nupdate) SUB(pdc_metadata_transfer_t, meta) SUB(region_info_transfer_t, region) NUM(cache_percentage)
#define F_data_server_read_out_t NUM(ret)
#define F_data_server_write_in_t NUM(client_id) NUM(nclient) NUM(nupdate) STR(shm_addr) SUB(pdc_metadata_transfer_t, meta) SUB(region_info_transfer_t, region)
#define F_data_server_write_out_t NUM(ret)
#define F_data_server_read_check_in_t NUM(client_id) SUB(pdc_metadata_transfer_t, meta) SUB(region_info_transfer_t, region)
#define F_data_server_read_check_out_t NUM(ret) STR(shm_addr)
#define F_data_server_write_check_in_t NUM(client_id) SUB(pdc_metadata_transfer_t, meta) SUB(region_info_transfer_t, region)
#define F_data_server_write_check_out_t NUM(ret)
#define F_region_storage_meta_t NUM(obj_id) SUB(region_info_transfer_t, region_transfer) ARR(storage_location) NUM(offset) NUM(size)
#define F_update_region_loc_in_t NUM(obj_id) STR(storage_location) NUM(offset) SUB(region_info_transfer_t, region) NUM(type) NUM(has_hist) HIST(hist)
#define F_update_region_loc_out_t NUM(ret)
#define F_get_metadata_by_id_in_t NUM(obj_id)
#define F_get_metadata_by_id_out_t SUB(pdc_metadata_transfer_t, res_meta)
#define F_pdc_serialized_data_t STR(buf)
#define F_get_storage_info_single_out_t SUB(region_info_transfer_t, region_transfer) STR(storage_loc) NUM(file_offset)
#define F_get_storage_info_in_t NUM(obj_id) SUB(region_info_transfer_t, req_region)
#define F_pdc_int_send_t NUM(origin)
#define F_pdc_int_ret_t NUM(ret)
#define F_pdc_aggregated_io_to_server_t STR(buf) SUB(pdc_metadata_transfer_t, meta)
#define F_cont_add_del_objs_rpc_in_t NUM(op) NUM(cnt) NUM(origin) NUM(cont_id) NUM(bulk_handle)
#define F_cont_add_del_objs_rpc_out_t NUM(ret)
#define F_cont_add_tags_rpc_in_t NUM(cont_id) STR(tags)
#define F_query_read_obj_name_in_t NUM(client_seq_id) NUM(cnt) NUM(total_size) NUM(origin) NUM(bulk_handle)
#define F_query_read_obj_name_out_t NUM(ret)
#define F_container_query_in_t STR(cont_name) NUM(hash_value)
#define F_container_query_out_t NUM(cont_id)
#define F_storage_meta_name_query_in_t STR(obj_name) NUM(task_id) NUM(origin_id)
#define F_get_sel_data_rpc_in_t NUM(query_id) NUM(obj_id) NUM(origin)
#define F_send_nhits_t NUM(query_id) NUM(nhits)
#define F_query_storage_region_transfer_t NUM(origin) NUM(total_region) NUM(is_done) NUM(query_id) NUM(manager) NUM(obj_id) SUB(region_info_transfer_t, region_transfer) STR(storage_location) NUM(offset) NUM(size) NUM(has_hist) NUM(data_type) NUM(op) HIST(hist)
#define F_dart_get_server_info_in_t NUM(serverId)
#define F_dart_get_server_info_out_t NUM(indexed_word_count) NUM(request_count)
#define F_dart_perform_one_server_in_t NUM(op_type) NUM(hash_algo) STR(attr_key) STR(attr_val) NUM(obj_ref_type) NUM(obj_primary_ref) NUM(obj_secondary_ref) NUM(obj_server_ref) NUM(timestamp)
#define F_dart_perform_one_server_out_t NUM(op_type) NUM(ret) NUM(bulk_handle) NUM(indexed_word_count) NUM(request_count) NUM(has_bulk) NUM(n_items) NUM(timestamp) NUM(server_time_elapsed) NUM(server_memory_consumption)
#define F_transform_ftn_in_t STR(ftn_name) STR(loadpath) NUM(object_id) NUM(region_id) NUM(client_index) NUM(operation_type) NUM(start_state) NUM(next_state) NUM(op_type) NUM(when)
#define F_transform_ftn_out_t NUM(object_id) NUM(region_id) NUM(client_index) NUM(ret)
#define F_analysis_ftn_in_t STR(ftn_name) STR(loadpath) NUM(local_obj_id) NUM(iter_in) NUM(iter_out)
#define F_obj_data_iterator_in_t NUM(client_iter_id) NUM(object_id) NUM(reg_id) NUM(sliceCount) NUM(sliceNext) NUM(sliceResetCount) NUM(elementsPerSlice) NUM(slicePerBlock) NUM(elementsPerPlane) NUM(elementsPerBlock) NUM(skipCount) NUM(element_size) NUM(srcBlockCount) NUM(contigBlockSize) NUM(totalElements) NUM(ndim) NUM(dims_0) NUM(dims_1) NUM(dims_2) NUM(dims_3) NUM(storageinfo) NUM(server_id)
#define F_analysis_ftn_out_t NUM(remote_ftn_id)
#define F_obj_data_iterator_out_t NUM(server_iter_id) NUM(client_iter_id) NUM(server_region_id) NUM(ret)
