CT = 'src/api/pdc_region/pdc_region_transfer.c'
SM = 'src/server/pdc_server_metadata.c'
RT = 'src/server/pdc_server_region/pdc_server_region_transfer.c'
RC = 'src/server/pdc_server_region/pdc_server_region_cache.c'
RU = 'src/utils/pdc_region_utils.c'
ART = 'src/commons/collections/art.c'
HT = 'src/commons/collections/pdc_hash_table.c'
BUGS = {
 'static-remainder': dict(checks=[('C04', '')], edits=[(CT, 'static_offset = x * s + (i - x) * (s + 1);', 'static_offset = x * s + (i - x) * s + (i > x);')],
     needs='at least four servers and an object whose split dimension leaves a remainder of three or more', breaks='parts of two servers overlap, so a request writes cells to one server and reads them from another'),
 'static-contained-piece': dict(checks=[('C04', '')], edits=[(CT, '''                                ? (static_size)
                                : (offset[split_dim] + size[split_dim] - static_offset);''', '''                                ? (static_size)
                                : (size[split_dim] - static_offset);''')],
     needs='a request that starts after cell 0 and ends inside a part that is not its first',
     breaks='the size of the last piece is computed from the wrong end'),
 'overlap-contained': dict(checks=[('C01', '')], edits=[(RU, '''((offset2[i] + size2[i] < offset1[i] + size1[i]) ? (offset2[i] + size2[i])
                                                                             : (offset1[i] + size1[i])) -
                            output_offset[0][i];''', '''((offset2[i] < offset1[i] || offset2[i] + size2[i] > offset1[i] + size1[i])
                                 ? (offset1[i] + size1[i])
                                 : (offset2[i] + size2[i])) -
                            output_offset[0][i];''')],
     needs='a second region that begins before the first and ends inside it', breaks='the overlap of two regions is too large'),
 'cache-read-flush-order': dict(checks=[('C10', '')], edits=[(RC, '            if (end[i] > new_end[0][index]) {\n                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,', '            if (end[i] > new_end[0][index] && start[i] != new_start[0][index]) {\n                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,')],
     needs='two cached 1-D regions that start at the same cell, the longer one second in start order, then a flush', breaks='the tail of the longer region is dropped when cached regions are merged for a flush'),
 'art-long-prefix': dict(checks=[('C22', '')], edits=[(ART, 'memcpy(n->partial, l->key + depth + prefix_diff + 1, min(MAX_PREFIX_LEN, n->partial_len));', 'memcpy(n->partial, l->key + depth + prefix_diff + 1, min(MAX_PREFIX_LEN - 1, n->partial_len));')],
     needs='keys that share more than ten bytes, split at least ten bytes before the end of the shared part', breaks='the last byte of a compressed path keeps its old value after the path is split, so keys are not found'),
 'hash-table-enlarge': dict(checks=[('C23', '')], edits=[(HT, '            rover->next              = hash_table->table[index];\n            hash_table->table[index] = rover;\n\n            /* Advance to next in the chain */', '            rover->next              = index != i ? hash_table->table[index] : NULL;\n            hash_table->table[index] = rover;\n\n            /* Advance to next in the chain */')],
     needs='growth of the table while an entry stays at its index behind other entries of its chain', breaks='entries of a chain that keeps its index are lost when the table grows'),
 'cont-realloc': dict(checks=[('C20', '')], edits=[(SM, 'realloc_size = cont_entry->n_allocated > n_obj ? cont_entry->n_allocated : n_obj;\n            realloc_size *= (sizeof(uint64_t) * 2);', 'realloc_size = cont_entry->n_allocated > n_obj ? cont_entry->n_allocated : n_obj;\n            realloc_size *= (sizeof(uint64_t) + sizeof(uint32_t));')],
     needs='a container that grows by more objects than half of what it had room for', breaks='a container list is written past its end'),
 'bloom-check-newest': dict(checks=[('C25', '')], edits=[('src/server/dablooms/pdc_dablooms.c', '''    for (i = bloom->num_blooms - 1; i >= 0; i--) {
        cur_bloom = bloom->blooms[i];
        if (counting_bloom_check(cur_bloom, s, len)) {''', '''    for (i = bloom->num_blooms - 1; i >= 0; i--) {
        cur_bloom = bloom->blooms[i];
        if (cur_bloom->header->count == 0 && i > 0)
            break;
        if (counting_bloom_check(cur_bloom, s, len)) {''')],
     needs='a filter that has grown and whose newest part had its items removed again', breaks='items of older parts are reported absent'),
 'bulk-read-size': dict(checks=[('C05', '')], edits=[(CT, '            total_obj_data_size += obj_data_size;\n            data_size += sizeof(uint64_t)', '            if (obj_data_size > total_obj_data_size)\n                total_obj_data_size = obj_data_size;\n            data_size += sizeof(uint64_t)')],
     needs='a batch of reads whose data is larger than their description', breaks='the buffer for the answers of a batch of reads has room for the largest answer only'),
 'placement-contained': dict(checks=[('C06', '')], edits=[('src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c', 'if (detect_region_contained(reg_offset, reg_size, region_metadata->reg_offset,\n                                    region_metadata->reg_size, ndim)) {', 'if (detect_region_contained(region_metadata->reg_offset, region_metadata->reg_size, reg_offset,\n                                    reg_size, ndim)) {')],
     needs='a write of a region that contains an earlier, smaller one', breaks='the larger region is never placed, so the cells outside the smaller one are lost'),
 'kvtag-query-grow': dict(checks=[('C19', '')], edits=[(SM, """                        if (iter >= alloc_size) {
                            alloc_size *= 2;
                            *obj_ids = (void *)realloc(*obj_ids, alloc_size * sizeof(uint64_t));
                        }
                        (*obj_ids)[iter++] = elt->obj_id;""", """                        if (iter + 1 > alloc_size) {
                            alloc_size += alloc_size / 2;
                            *obj_ids = (void *)realloc(*obj_ids, iter * 2 * sizeof(uint32_t));
                        }
                        (*obj_ids)[iter++] = elt->obj_id;""")],
     needs='more than 128 objects that match a tag search', breaks='the list of matches is written past its end'),
 'bloom-init-head': dict(checks=[('C16', '')], edits=[(SM, """        DL_FOREACH(head->metadata, elt)
        {
            PDC_Server_add_to_bloom(elt, head->bloom);
        }
        ret_value = PDC_Server_add_to_bloom(new, head->bloom);""", """        for (elt = head->metadata; elt->next != NULL; elt = elt->next) {
            PDC_Server_add_to_bloom(elt, head->bloom);
        }
        ret_value = PDC_Server_add_to_bloom(new, head->bloom);""")],
     needs='more objects of one hash value than it takes to create a Bloom filter, then a creation of the object that was last before', breaks='an object is missing from the Bloom filter, so it can be created again'),
 'copy-3d': dict(checks=[('C02', '')], edits=[(RU, 'src_buf    = buf + ((sub_offset[0] + i) * size[1] * size[2] + (sub_offset[1] + j) * size[2] +\n                                 sub_offset[2]) *', 'src_buf    = buf + ((sub_offset[0] + i) * size[1] * size[2] + (sub_offset[1] + j) * sub_size[2] +\n                                 sub_offset[2]) *')],
     needs='a 3-D part that is narrower than the region it belongs to and not at its first row', breaks='rows of a 3-D part are taken from the wrong place'),
 'pack-3d': dict(checks=[('C03', '')], edits=[(CT, """                    memcpy(buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
                                     unit,
                           ptr, local_size[2] * unit);""", """                    memcpy(buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
                                  (local_offset[1] * obj_dims[2]) + j * local_size[2] + local_offset[2]) *
                                     unit,
                           ptr, local_size[2] * unit);""")],
     needs='a read into a 3-D local region of more than one row per plane that is narrower than the object', breaks='rows of a 3-D local region are unpacked to the wrong place'),
 'deque-shrink': dict(checks=[('C24', '')], edits=[('src/commons/collections/pdc_deque.c', """    deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
    void *value = deque->data[deque->tail];
    deque->size--;""", """    deque->tail = deque->tail == 0 ? deque->capacity : deque->tail;
    void *value = deque->data[--deque->tail];
    if (--deque->size == 0)
        deque->head = 0;""")],
     needs='a deque that becomes empty from its back after elements were taken from its front', breaks='head and tail of an empty deque differ, so the next element is lost'),
 'wildcard-prefix': dict(checks=[('C26', '')], edits=[('src/commons/utils/string_utils.c', 'tok    = substring(pattern, 1, strlen(pattern) - 1);', 'tok    = substring(pattern, 1, strlen(pattern) > 3 ? strlen(pattern) - 1 : 2);')],
     needs='the pattern **', breaks='a pattern of two wildcards matches strings with an asterisk only'),
 'kvtag-wire': dict(checks=[('C11', '')], edits=[('src/server/include/pdc_client_server_common.h', """    ret = hg_proc_uint32_t(proc, &struct_data->size);
    if (ret != HG_SUCCESS) {
        // HG_LOG_ERROR("Proc error");
        return ret;
    }
    ret = hg_proc_int8_t(proc, &struct_data->type);""", """    ret = hg_proc_uint16_t(proc, (uint16_t *)&struct_data->size);
    if (ret != HG_SUCCESS) {
        // HG_LOG_ERROR("Proc error");
        return ret;
    }
    ret = hg_proc_int8_t(proc, &struct_data->type);""")],
     needs='a tag value of 65536 bytes or more, or an answer decoded into memory that was not zero', breaks='the size of a tag loses its upper half on the wire'),
 'storage-read-narrow': dict(checks=[('C09', '')], edits=[('src/server/pdc_server_region/pdc_server_data.c', """                            pos = (overlap_offset[0] - overlap_region->start[0]) * overlap_region->count[1] *
                                  unit;
                            if (overlap_offset[1] == region_info->offset[1] &&
                                overlap_size[1] == region_info->size[1]) {
                                // Overlap region is exactly the same as input region, so no need to copy
                                // temporary buffer.
#ifdef PDC_TIMING
                                start_posix = MPI_Wtime();
#endif
                                if (pread(""", """                            pos = (overlap_offset[0] - overlap_region->start[0]) * overlap_region->count[1] *
                                  unit;
                            if (overlap_offset[1] == region_info->offset[1]) {
                                // Overlap region is exactly the same as input region, so no need to copy
                                // temporary buffer.
#ifdef PDC_TIMING
                                start_posix = MPI_Wtime();
#endif
                                if (pread(""")],
     needs='without data sieving, a 2-D read that starts at the column of a stored region and is wider than it', breaks='rows of a stored region are put behind each other in the buffer of the read'),
 'restart-chain-count': dict(checks=[('C07', '')], edits=[(SM, """                        PDC_Server_remove_from_bloom(target, lookup_value->bloom);
                    }

                    // Remove from linked list
                    DL_DELETE(lookup_value->metadata, target);
                    lookup_value->n_obj--;""", """                        PDC_Server_remove_from_bloom(target, lookup_value->bloom);
                        lookup_value->n_obj--;
                    }

                    // Remove from linked list
                    DL_DELETE(lookup_value->metadata, target);""")],
     needs='an object deleted by name while another object has a name with the same hash, then a restart', breaks='the count of a chain of objects is larger than the chain, and the restart reads the next parts of the file as objects'),
 'restart-tag-value': dict(checks=[('C07', '')], edits=[('src/server/pdc_server.c', """                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
                fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
            }

            // Write region info""", """                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
                fwrite(elt->kvtag_list_head->kvtag->value, kvlist_elt->kvtag->size, 1, file);
            }

            // Write region info""")],
     needs='an object with at least two key-value tags when the state is saved', breaks='all tags of an object come back with the value of its first tag'),
 'search-user': dict(checks=[('C28', '')], edits=[(SM, "if (constraints->user_id > 0 && constraints->user_id != metadata->user_id) {", "if (constraints->user_id > 0 && metadata->user_id > 0 && constraints->user_id != metadata->user_id) {")],
     needs='a search for a user while an object without a user exists', breaks='objects that belong to no user are returned for every user'),
 'update-tag-space': dict(checks=[('C28', '')], edits=[(SM, """                if (in->new_metadata.tags[0] != 0 &&
                    !(in->new_metadata.tags[0] == ' ' && in->new_metadata.tags[1] == 0)) {""", """                if (in->new_metadata.tags[0] != 0 && in->new_metadata.tags[0] != ' ') {""")],
     needs='an update that adds a tag that begins with a space', breaks='the tag is dropped although the update reports success'),
 'update-app': dict(checks=[('C28', '')], edits=[(SM, """                if (in->new_metadata.app_name[0] != 0 &&
                    !(in->new_metadata.app_name[0] == ' ' && in->new_metadata.app_name[1] == 0))
                    strcpy(target->app_name, in->new_metadata.app_name);""", """                if (in->new_metadata.app_name[0] != 0 &&
                    !(in->new_metadata.app_name[0] == ' ' && in->new_metadata.app_name[1] == 0))
                    strncpy(target->app_name, in->new_metadata.app_name, strlen(in->new_metadata.app_name));""")],
     needs='an update of the application name to a shorter one', breaks='the end of the previous application name stays'),
 'status-list-end': dict(checks=[('C08', '')], edits=[('src/server/pdc_server_region/pdc_server_region_transfer.c', """            if (ret_value == PDC_TRANSFER_STATUS_COMPLETE) {
                if (tmp != NULL) {
                    /* Case for removing the any nodes but the first one. */
                    tmp->next = ptr->next;
                    /* Free pointer is the last list node, so we set the end to the previous one. */
                    if (ptr->next == NULL) {
                        transfer_request_status_list_end = tmp;
                    }
                    free(ptr);""", """            if (ret_value == PDC_TRANSFER_STATUS_COMPLETE) {
                if (tmp != NULL) {
                    /* Case for removing the any nodes but the first one. */
                    tmp->next = ptr->next;
                    free(ptr);""")],
     needs='the newest of several requests reported complete while an older one is still known to the server, then another request', breaks='the server appends the next request to a freed list element: it is lost or corrupts memory'),
 'wait-all-early': dict(checks=[('C08', '')], edits=[('src/server/pdc_server_region/pdc_server_region_transfer.c', """            ptr->handle_ref = handle_ref;
            handle_ref[0]++;
            break;""", """            ptr->handle_ref = handle_ref;
            if (ptr->next == NULL || ptr->next->status != PDC_TRANSFER_STATUS_PENDING)
                handle_ref[0]++;
            break;""")],
     needs='wait_all on two requests that are both pending when it arrives', breaks='the reply to wait_all is sent before all its requests have finished, or never'),
 'read-complete-early': dict(checks=[('C08', '')], edits=[('src/server/pdc_server_region/pdc_server_region_request_handler.h', """    local_bulk_args2->handle              = local_bulk_args->handle;
    local_bulk_args2->transfer_request_id = local_bulk_args->transfer_request_id;""", """    pthread_mutex_lock(&transfer_request_status_mutex);
    for (i = 1; i < request_data.n_objs; ++i)
        PDC_finish_request(local_bulk_args->transfer_request_id[i]);
    pthread_mutex_unlock(&transfer_request_status_mutex);
    local_bulk_args2->handle              = local_bulk_args->handle;
    local_bulk_args2->transfer_request_id = local_bulk_args->transfer_request_id;""")],
     needs='several reads started together whose metadata has arrived while the data is not yet pushed, and a status or wait on any but the first', breaks='reads are reported complete before their data has reached the client'),
 'id-restart': dict(checks=[('C17', '')], edits=[('src/utils/pdc_interface.c', '            /* Decrement the number of IDs in the type */\n            (type_ptr->id_count)--;', '            /* Decrement the number of IDs in the type */\n            if (--(type_ptr->id_count) == 0)\n                type_ptr->nextid = 0;')],
     needs='closing every handle of a kind, then making a new one', breaks='the ID of a closed handle is given again, so a stale ID names another thing'),
 'info-shares-name': dict(checks=[('C17', '')], edits=[('src/api/pdc_obj/pdc_obj.c', '    if (info->cont->cont_info_pub->name)\n        ret_value->cont->cont_info_pub->name = strdup(info->cont->cont_info_pub->name);', '    if (info->cont->cont_info_pub->name && info->location != PDC_OBJ_LOCAL)\n        ret_value->cont->cont_info_pub->name = strdup(info->cont->cont_info_pub->name);')],
     needs='a local object whose description is obtained and freed or changed', breaks='the description of a local object shares the container name with the object'),
 'unmap-keeps-object': dict(checks=[('C17', '')], edits=[('src/api/pdc_region/pdc_region.c', '        PDC_inc_ref(remote_obj);\n        PDC_inc_ref(remote_reg);', '        PDC_inc_ref(remote_reg);\n        if (reg1->ndim > 1)\n            PDC_inc_ref(remote_obj);')],
     needs='a one-dimensional region that is mapped and then unmapped, the object being used after that', breaks='unmapping a one-dimensional region closes the object'),
 'dart-last-vnode': dict(checks=[('C21', '')], edits=[('src/commons/index/dart/dart_core.c', 'return (vnode_id / num_vnode_per_server) % dart->num_server;', 'return vnode_id / num_vnode_per_server;')],
     needs='a number of servers that does not divide the number of virtual nodes, and a keyword at one of the last virtual nodes', breaks='the operation is sent to a server that does not exist'),
 'dart-delete-replica': dict(checks=[('C21', '')], edits=[('src/commons/index/dart/dart_core.c', """                out[0][num_base_reps + i] = alter_replicas[i];""", """                out[0][num_base_reps + i] = alter_replicas[i > 0 ? i - 1 : 0];""")],
     needs='a keyword that was inserted at its alternative place because of the loads, then deleted', breaks='the last replica of the keyword is not deleted'),
 'dart-leaf-char': dict(checks=[('C21', '')], edits=[('src/commons/index/dart/dart_core.c', """        uint64_t reconciled_vnode_id = get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(
            dart_g, base_virtual_node_id, token, NULL);""", """        uint64_t reconciled_vnode_id = base_virtual_node_id;
        if (op_type != OP_PREFIX_QUERY)
            reconciled_vnode_id = get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(
                dart_g, base_virtual_node_id, token, NULL);""")],
     needs='a prefix search longer than the partition tree is high, for a keyword that was inserted at its alternative place', breaks='the search goes to the base place only and misses the keyword'),
 'index-set-last': dict(checks=[('C29', '')], edits=[('src/server/pdc_server_metadata_index.c', """    if (set_query(obj_id_set, data) != 0) {
        set_remove(obj_id_set, data);
    }

    if (set_num_entries(obj_id_set) == 0) {""", """    int before = set_num_entries(obj_id_set);
    if (set_query(obj_id_set, data) != 0) {
        set_remove(obj_id_set, data);
    }

    if (before <= 1) {""")],
     needs='the deletion of a tag that an object does not have while exactly one other object has it', breaks='the other object is dropped from the index'),
 'index-value-suffix': dict(checks=[('C29', '')], edits=[('src/server/pdc_server_metadata_index.c', """            for (int jj = 0; jj < strlen(attr_value); jj++) {
                unsigned char *val_key = (unsigned char *)substring(attr_value, jj, strlen(attr_value));
#endif""", """            for (int jj = 0; jj < strlen(attr_value); jj++) {
                if (jj > 0 && attr_value[jj] == attr_value[jj - 1])
                    continue;
                unsigned char *val_key = (unsigned char *)substring(attr_value, jj, strlen(attr_value));
#endif""")],
     needs='the deletion of a tag whose value repeats a character, then a suffix or infix search', breaks='a deleted tag is still found by the end of its value'),
 'query-region-count': dict(checks=[('C13', '')], edits=[('src/server/pdc_client_server_common.c', """        if (a->start[i] != b->start[i])
            PGOTO_DONE(-1);
        if (a->count[i] != b->count[i])
            PGOTO_DONE(-1);""", """        if (a->start[i] != b->start[i])
            PGOTO_DONE(-1);
        if (i > 0 && a->count[i] != b->count[i])
            PGOTO_DONE(-1);""")],
     needs='two stored regions that start at the same place and differ in their extent along the first dimension', breaks='the second region is taken for the one already read, and its elements are never examined'),
 'query-range-int64': dict(checks=[('C13', '')], edits=[('src/server/pdc_server_region/pdc_server_data.c', '    int64_t  i64lo = 0, i64hi = 0;\n    uint64_t ui64lo = 0, ui64hi = 0;\n    void *   value', '    uint64_t i64lo = 0, i64hi = 0;\n    uint64_t ui64lo = 0, ui64hi = 0;\n    void *   value')],
     needs='a range condition on an object of 64-bit integers with a negative bound or negative values', breaks='the bounds are compared as unsigned numbers'),
 'query-coords-room': dict(checks=[('C13', '')], edits=[('src/server/pdc_server_region/pdc_server_data.c', """    query->sel->coords       = (uint64_t *)calloc(query->sel->coords_alloc, sizeof(uint64_t));
    if (NULL == query->sel->coords) {
        printf("==PDC_SERVER[%d]: %s - error with calloc!\\n", pdc_server_rank_g, __func__);
        goto done;
    }

    // Attach the query sel""", """    query->sel->coords       = (uint64_t *)calloc(query->sel->coords_alloc, sizeof(uint64_t));
    if (NULL == query->sel->coords) {
        printf("==PDC_SERVER[%d]: %s - error with calloc!\\n", pdc_server_rank_g, __func__);
        goto done;
    }
    if (query_xfer->n_unique_obj == 1)
        query->sel->coords_alloc *= 2;

    // Attach the query sel""")],
     needs='a query on one object with more than 8192 coordinates of hits', breaks='the hits overrun the memory for them'),
 'lock-any-count': dict(checks=[('C18', '')], edits=[('src/server/pdc_server_region/pdc_server_data.c', """        if (a->start[i] != b->start[i] || a->count[i] != b->count[i]) {
            ret_value = -1;""", """        if (a->start[i] != b->start[i] || (i + 1 < a->ndim && a->count[i] != b->count[i])) {
            ret_value = -1;""")],
     needs='two locked regions that start at the same element and differ in their extent along the last dimension, released in another order than locked', breaks='the release of one region drops the lock of the other'),
 'map-dup-count': dict(checks=[('C18', '')], edits=[('src/server/pdc_server_region/pdc_server_data.c', """                in->remote_region_unit.start_0 == tmp->remote_region_unit.start_0 &&
                in->remote_region_unit.start_1 == tmp->remote_region_unit.start_1 &&
                in->remote_region_unit.count_0 == tmp->remote_region_unit.count_0 &&
                in->remote_region_unit.count_1 == tmp->remote_region_unit.count_1 &&
                in->local_region.start_0 == tmp->local_region.start_0 &&""", """                in->remote_region_unit.start_1 == tmp->remote_region_unit.start_1 &&
                in->remote_region_unit.count_0 == tmp->remote_region_unit.count_0 &&
                in->remote_region_unit.count_1 == tmp->remote_region_unit.count_1 &&
                in->local_region.start_0 == tmp->local_region.start_0 &&""")],
     needs='two mapped two-dimensional regions of the same extent that differ in their first row only', breaks='the second map is taken for a repetition of the first and releases of the second region transfer nothing'),
 'release-read-rows': dict(checks=[('C18', '')], edits=[('src/server/pdc_client_server_common.c', """                            (remote_reg_info->offset)[1] = (obj_map_bulk_args->remote_region_nounit).start_1;
                            (remote_reg_info->size)[1]   = (obj_map_bulk_args->remote_region_nounit).count_1;""", """                            (remote_reg_info->offset)[1] = (obj_map_bulk_args->remote_region_nounit).start_1;
                            (remote_reg_info->size)[1]   = (obj_map_bulk_args->remote_region_nounit).count_1;
                            if (remote_reg_info->size[0] == 1)
                                remote_reg_info->offset[0] = 0;""")],
     needs='a mapped region of several dimensions that is one row thick and does not start at row 0, released after reading', breaks='the buffer receives another row'),
}
