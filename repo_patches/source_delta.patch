From 13a61625dc3e41f5a380e70211d0cd3a08524685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:10 +0000
Subject: [PATCH 01/56] fix: hashmapPut reports no previous value when out of
 memory

---
 src/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..4d43085 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -197,6 +197,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
-- 
2.43.0


From 3268086216e01498470504c2be4e6ed1aec12a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:38 +0000
Subject: [PATCH 02/56] fix: iterator accepts new dependencies after all
 earlier ones were dequeued

---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..605f92f 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -284,6 +284,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
+        p_iterator->p_current->last_dep = NULL; // it was the last one
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From 6601b2e65e86daf48f3af19b23f9fb4368d1c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:56 +0000
Subject: [PATCH 03/56] fix: read and write bit-fields wider than 31 bits and
 packed ones that span an extra byte

---
 src/value.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/value.c b/src/value.c
index 1d15d06..5162177 100644
--- a/src/value.c
+++ b/src/value.c
@@ -140,13 +140,20 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
+    _check_(bit_size == 0 || bit_size > 8 * var_size, -(EINVAL));
+
 #define _read_(_type_) \
     do{ \
-        _type_ data = *((_type_*)base_addr); \
-        data = (data >> bit_offset) & ((1 << bit_size) - 1); \
+        _type_ mask = (_type_)(~(_type_)0) >> (8 * sizeof(_type_) - bit_size); \
+        _type_ data = *((_type_*)base_addr) >> bit_offset; \
+        /* packed field can take one byte more than its type has */ \
+        if (IS_LITTLE_ENDIAN && bit_offset + bit_size > 8 * sizeof(_type_)) { \
+            data |= (_type_)buf[sizeof(_type_)] << (8 * sizeof(_type_) - bit_offset); \
+        } \
+        data &= mask; \
         \
-        if ((correct_sign) && (data & (1 << (bit_size-1)))) { \
-            data = ((-1) << ((bit_size))) ^ data; \
+        if ((correct_sign) && (data & (((_type_)1) << (bit_size-1)))) { \
+            data |= (_type_)~mask; \
         } \
         *((_type_*)p_var) = data; \
     } while(0)
@@ -196,10 +203,18 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
+    _check_(bit_size == 0 || bit_size > 8 * var_size, -(EINVAL));
+
 #define _write_(_type_) \
     do { \
-        _type_ data = ((*(_type_*)p_var) & ((1 << bit_size) - 1)) << bit_offset; \
-        *((_type_*)base_addr) = *((_type_*)base_addr) & (~(((1 << bit_size) - 1) << bit_offset )) | data;\
+        _type_ mask = (_type_)(~(_type_)0) >> (8 * sizeof(_type_) - bit_size); \
+        _type_ data = (*(_type_*)p_var) & mask; \
+        *((_type_*)base_addr) = (*((_type_*)base_addr) & (_type_)~(_type_)(mask << bit_offset)) | (_type_)(data << bit_offset);\
+        /* packed field can take one byte more than its type has */ \
+        if (IS_LITTLE_ENDIAN && bit_offset + bit_size > 8 * sizeof(_type_)) { \
+            metac_offset_t done = 8 * sizeof(_type_) - bit_offset; \
+            buf[sizeof(_type_)] = (buf[sizeof(_type_)] & ~(uint8_t)(mask >> done)) | (uint8_t)(data >> done); \
+        } \
     } while (0)
 
     if (var_size == sizeof(unsigned char)) {
-- 
2.43.0


From 39c93fb390b5ce9772a804023e4b254f119b77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:41 +0000
Subject: [PATCH 04/56] fix: enumerations of unsigned types and enumeration
 bit-fields are read and written exactly

---
 src/value.c | 79 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/src/value.c b/src/value.c
index 5162177..a561c57 100644
--- a/src/value.c
+++ b/src/value.c
@@ -487,6 +487,30 @@ struct metac_type_enumerator_info const * metac_value_enumeration_info(metac_val
     return metac_entry_enumeration_info(p_final_entry, id);
 }
 
+/* C compilers use unsigned type for enumerations without negative enumerators */
+static metac_flag_t _enumeration_is_signed(metac_entry_t * p_final_entry) {
+    for (metac_num_t i = 0; i < metac_entry_enumeration_info_size(p_final_entry); ++i) {
+        if (metac_entry_enumeration_info(p_final_entry, i)->const_value < 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/* enumeration can be a bit-field. in this case p_struct_addr will be set to the address of the structure */
+static metac_flag_t _enumeration_is_bitfield(metac_value_t * p_val, void ** p_struct_addr) {
+    struct metac_member_raw_location_info bitfields_raw_info;
+    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member ||
+        metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0 || (
+            bitfields_raw_info.p_bit_offset == NULL &&
+            bitfields_raw_info.p_bit_size == NULL &&
+            bitfields_raw_info.p_data_bit_offset == NULL)) {
+        return 0;
+    }
+    *p_struct_addr = p_val->addr - bitfields_raw_info.byte_offset;
+    return 1;
+}
+
 int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     _check_(p_var == NULL, -(EINVAL));
 
@@ -499,26 +523,31 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
-        return 0;
+    metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
+    long long buf = 0;
+    void * addr = p_val->addr, * struct_addr = NULL;
+    if (_enumeration_is_bitfield(p_val, &struct_addr) != 0) {
+        _check_(enum_byte_size > sizeof(buf), -(ENOTSUP));
+        int err = _entry_bitfield_read(p_val->p_entry, struct_addr, &buf, enum_byte_size, is_signed);
+        if (err != 0) {
+            return err;
+        }
+        addr = &buf;
     }
+
+#define _read_(_type_) \
+    do { \
+        if (enum_byte_size == sizeof(_type_)) { \
+            *p_var = is_signed ? (metac_const_value_t)*(signed _type_*)addr : (metac_const_value_t)*(unsigned _type_*)addr; \
+            return 0; \
+        } \
+    } while(0)
+    _read_(char);
+    _read_(short);
+    _read_(int);
+    _read_(long);
+    _read_(long long);
+#undef _read_
     return -(ENOTSUP);
 }
 
@@ -537,6 +566,18 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
+    void * struct_addr = NULL;
+    if (_enumeration_is_bitfield(p_val, &struct_addr) != 0) {
+        char c = var; short s = var; int i = var; long long ll = var;
+        void * p_var =
+            (enum_byte_size == sizeof(c)) ? (void*)&c :
+            (enum_byte_size == sizeof(s)) ? (void*)&s :
+            (enum_byte_size == sizeof(i)) ? (void*)&i :
+            (enum_byte_size == sizeof(ll)) ? (void*)&ll : NULL;
+        _check_(p_var == NULL, -(ENOTSUP));
+        return _entry_bitfield_write(p_val->p_entry, struct_addr, p_var, enum_byte_size);
+    }
+
     if (enum_byte_size == sizeof(char)) {
         *(char*)p_val->addr = (char)var;
         return 0;
-- 
2.43.0


From 3e866e99acf0e0cea9934a161f6c9531906b1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:17 +0000
Subject: [PATCH 05/56] fix: C declarations of pointers to arrays, functions
 returning declarators and multiple qualifiers

---
 src/entry_cdecl.c | 96 +++++++++++++++++++++++++++++------------------
 1 file changed, 60 insertions(+), 36 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..c03261a 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -9,6 +9,35 @@ dsprintf_render_with_buf(64)
 
 #include <assert.h>
 
+static metac_flag_t is_qualifier(metac_entry_t * p_entry) {
+    switch (p_entry->kind) {
+        case METAC_KND_const_type:
+        case METAC_KND_volatile_type:
+        case METAC_KND_restrict_type:
+        case METAC_KND_mutable_type:
+        case METAC_KND_shared_type:
+        case METAC_KND_packed_type:
+            return 1;
+    }
+    return 0;
+}
+
+/* pointer to (may be qualified) array needs parentheses: [] binds tighter than * */
+static metac_flag_t is_array(metac_entry_t * p_entry) {
+    while (p_entry != NULL && is_qualifier(p_entry)) {
+        p_entry = p_entry->qual_type_info.type;
+    }
+    return (p_entry != NULL && p_entry->kind == METAC_KND_array_type)?1:0;
+}
+
+/* qualifier of already qualified pointer or of array of pointers is still related to the pointer */
+static metac_flag_t is_qualifying_pointer(metac_entry_t * p_entry) {
+    while (p_entry != NULL && (is_qualifier(p_entry) || p_entry->kind == METAC_KND_array_type)) {
+        p_entry = (p_entry->kind == METAC_KND_array_type)?p_entry->array_type_info.type:p_entry->qual_type_info.type;
+    }
+    return (p_entry != NULL && p_entry->kind == METAC_KND_pointer_type)?1:0;
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -184,7 +213,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         char * res = NULL;
-                        if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
+                        if (is_qualifying_pointer(p->qual_type_info.type)) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
                             res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -226,7 +255,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             }
                         }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-                            "* %s");
+                            is_array(p->pointer_type_info.type)?"(* %s)":"* %s");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
@@ -437,29 +466,26 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subprogram_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // name with params is the declarator
+                        char * declarator = dsprintf("%s(%s)",
+                            p->name,
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subprogram_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (declarator == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // put everything into pattern
-                        char * res = dsprintf(subprogram_pattern,
-                            p->name,
-                            (params!=NULL)?params:"");
-                        if (subprogram_pattern != NULL) {
-                            free(subprogram_pattern);
-                        }
-                        if (params != NULL) {
-                            free(params);
+                        // put it into the pattern of the returned type
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            declarator);
+                        free(declarator);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
@@ -547,27 +573,25 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subroutine_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // placeholder with params is the declarator
+                        char * declarator = dsprintf("(%%s)(%s)",
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subroutine_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (declarator == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // now we can form final result
-                        char * res = dsprintf(subroutine_pattern,
-                            "(%s)",
-                            (params!=NULL)?params:"");
-                        free(subroutine_pattern);
-                        if (params != NULL) {
-                            free(params);
+                        // put it into the pattern of the returned type
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            declarator);
+                        free(declarator);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From a0cd939adb0eb0f702a193b26a4b448ba3e3a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:41 +0000
Subject: [PATCH 06/56] fix: deep copy sets destination pointers to NULL where
 source pointers are NULL

---
 src/value_deep.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..ab6ef7b 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1145,13 +1145,13 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */
-                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
+                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
+                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
-                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
+                    } else { /* src is NULL in all modes except for METAC_UPTR_ignore, which requires to set NULL anyway */
+                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-- 
2.43.0


From bf8b2c45c6a6d5dd02d02608ddc8fc3a69c30da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:41 +0000
Subject: [PATCH 07/56] fix: failed memory map creation doesn't access already
 deleted entries

---
 src/value_deep.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index ab6ef7b..efc07e3 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -346,6 +346,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
         }
     }
 
+    metac_flag_t cleaned_up = 0; /* some entries were deleted because of failure - hashmap may refer to them and can't be used anymore */
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -543,6 +544,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    cleaned_up = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
@@ -718,7 +720,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                     p_memory_entry->pp_children[0] = p_member_memory_entry;
                     p_member_memory_entry->p_parent = p_memory_entry;
                     /* if in DAG mode - keep also info about new entries where pointers point in hashmap*/
-                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL && cleaned_up == 0) {
                         void * addr = metac_value_addr(p_member_memory_entry->p_val);
 
                         if (hashmapContainsKey(p_map->p_addr_ptr_val_to_memory_entry, addr) != 0) {
@@ -727,6 +729,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr);
                             if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size) {
                                 if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                    cleaned_up = 1;
                                     // p_in stil must exist if we fail
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
@@ -738,6 +741,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             }
                         } else {
                             if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                cleaned_up = 1;
                                 // p_in stil must exist if we fail
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
@@ -823,6 +827,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    cleaned_up = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
-- 
2.43.0


From 58f8cd8d6b7a2ca41f8bbc7a0738d6a11b1bea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:41 +0000
Subject: [PATCH 08/56] fix: deep comparison of loops doesn't depend on pointer
 values in METAC_UPTR_as_values mode

---
 src/value_deep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index efc07e3..462e1ad 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1319,8 +1319,8 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
                 if (metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
-                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
-                            /*treat pointer as value*/
+                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values && p1->loop_level == 0) {
+                            /*treat pointer as value. loops have been already compared by their levels*/
                             int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                             if (_cmp < 0) {
                                 metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 437e573471a5143514d92d04037558b0066e7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:25 +0000
Subject: [PATCH 09/56] fix: deep copy and comparison support several pointers
 to the same part of a memory block

---
 src/value_deep.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 462e1ad..24e1aaf 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -314,6 +314,20 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
     return 0;
 }
 
+/* several pointers may show the same address: the offset is kept only in that entry which is in the hashmap */
+static metac_size_t _offset_from_allocate_base(struct metac_memory_map * p_map, struct metac_memory_entry * p_entry) {
+    if (p_map->p_addr_ptr_val_to_memory_entry != NULL &&
+        p_entry->p_parent != NULL && 
+        metac_value_is_pointer(p_entry->p_parent->p_val) != 0) {
+        struct metac_memory_entry * p_addr_entry = 
+            (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, metac_value_addr(p_entry->p_val));
+        if (p_addr_entry != NULL) {
+            return p_addr_entry->offset_from_allocate_base;
+        }
+    }
+    return p_entry->offset_from_allocate_base;
+}
+
 /* default mode - failsafe */
 static metac_value_memory_map_mode_t const _default_value_memory_map_mode = {
     .memory_block_mode = METAC_MMODE_dag,
@@ -1080,6 +1094,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     if (p->children_count == 1) {
                         size_t nmemb;
                         void * src;
+                        metac_size_t offset_from_allocate_base;
                         switch (p_mode->memory_block_mode) {
                             case METAC_MMODE_tree:
                                 nmemb = 1;
@@ -1102,14 +1117,15 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 src = metac_value_addr(p->pp_children[0]->p_val);
                                 assert(src != NULL); /* since children count >0 this must be true */
                                 assert(context.src_to_dst != NULL);
-                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
-                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
+                                offset_from_allocate_base = _offset_from_allocate_base(context.p_map, p->pp_children[0]);
+                                if (offset_from_allocate_base != 0) {
+                                    void * allocate_src = src - offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
+                                    p_dst_children_addr_override = allocate_dst + offset_from_allocate_base;
                                 } else {
                                     p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                     if (p_dst_children_addr_override == NULL) {
@@ -1310,7 +1326,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                 if (p1->byte_size != p2->byte_size ||
                     p1->children_count != p2->children_count ||
                     p1->loop_level != p2->loop_level ||
-                    p1->offset_from_allocate_base != p2->offset_from_allocate_base||
+                    _offset_from_allocate_base(p_map1, p1) != _offset_from_allocate_base(p_map2, p2) ||
                     metac_value_final_kind(p1->p_val, NULL) != metac_value_final_kind(p2->p_val, NULL)) {
                     cmp_res = 0;
                     metac_recursive_iterator_done(p_iter, &cmp_res);
-- 
2.43.0


From cc13d2d2c41c7bdf145dc87461af6e268bc6e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 10/56] fix: escape quote and backslash in character literals

---
 src/value_base_type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 7ece656..8c16b04 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -351,6 +351,9 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
         if (metac_value_char(p_val, &v) != 0) {
             return NULL;
         }
+        if (v == '\'' || v == '\\') { /* these must be escaped inside of the character literal */
+            return dsprintf("'\\%c'", v);
+        }
         if (isprint(v)) {
             return dsprintf("'%c'", v);
         }
-- 
2.43.0


From 127b5b11439a1bb0a5a06b98574b98be7a68de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 11/56] fix: pointers to types that are only declared are shown
 as addresses

---
 src/value_string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..762361c 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -215,8 +215,9 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                     }
                                 }
                             }
-                            if (p_arr_val == NULL && metac_value_is_void_pointer(p)) {
-                                /* if p is void * we won't be able to do anything - there are no arrays of void. fallback to shallow */
+                            if (p_arr_val == NULL && (metac_value_is_void_pointer(p) != 0 || metac_value_is_declaration_pointer(p) != 0)) {
+                                /* if p is void * or points to the type which is only declared we won't be able to do anything -
+                                   there are no arrays of such types. fallback to shallow */
                                 char * out = metac_value_pointer_string(p);
                                 if (out == NULL) {
                                     metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From ecd151396e4676956ee745667ea3d35f9cd96f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 12/56] fix: iterator which couldn't be allocated reports
 failure

---
 src/iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 605f92f..6c96340 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -85,6 +85,9 @@ metac_recursive_iterator_t * metac_new_recursive_iterator(void * p_in) {
 }
 
 void metac_recursive_iterator_free(metac_recursive_iterator_t * p_iterator) {
+    if (p_iterator == NULL) {
+        return;
+    }
     metac_cleanup_recursive_iterator_entry(&p_iterator->recursive_iterator_entry);
     free(p_iterator);
 }
@@ -187,6 +190,9 @@ void * metac_recursive_iterator_get_in(metac_recursive_iterator_t * p_iterator,
 
 void * metac_recursive_iterator_get_out(metac_recursive_iterator_t * p_iterator, void ** pp_in, int * p_fail) {
     if (p_iterator == NULL) {
+        if (p_fail != NULL) {
+            *p_fail = 1; // there was not enough memory to start
+        }
         return NULL;
     }
     assert(p_iterator->p_current != NULL);
-- 
2.43.0


From 4735fc6175447e1a340a006c8860a2ed93226ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:02 +0000
Subject: [PATCH 13/56] fix: declaration text reports lack of memory and
 releases everything it allocated

---
 src/entry_cdecl.c | 119 +++++++++++++++++++++++++++++++---------------
 1 file changed, 81 insertions(+), 38 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index c03261a..8a24eb4 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -38,6 +38,11 @@ static metac_flag_t is_qualifying_pointer(metac_entry_t * p_entry) {
     return (p_entry != NULL && p_entry->kind == METAC_KND_pointer_type)?1:0;
 }
 
+/* special state: release results of all dependencies and fail */
+enum {
+    CDECL_ITER_failure = 100,
+};
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -52,12 +57,25 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
     for (metac_entry_t * p = (metac_entry_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_entry_t *)metac_recursive_iterator_next(p_iter)) {
         int state = metac_recursive_iterator_get_state(p_iter);
+        if (state == CDECL_ITER_failure) {
+            while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
+                char * dep_out = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                if (dep_out != NULL) {
+                    free(dep_out);
+                }
+            }
+            metac_recursive_iterator_fail(p_iter);
+            continue;
+        }
         switch(p->kind) {
             case METAC_KND_variable: {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->variable_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->variable_info.type);// ask to process type on the next level
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->variable_info.type) != 0) { // ask to process type on the next level
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                          continue;
@@ -91,6 +109,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 char * res = dsprintf("%s %%s",p->name);
                 if (res == NULL) {
                     metac_recursive_iterator_fail(p_iter);
+                    continue;
                 }
                 metac_recursive_iterator_done(p_iter, res);
                 continue;
@@ -142,7 +161,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->array_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->array_type_info.type);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->array_type_info.type) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -185,7 +207,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->qual_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->qual_type_info.type);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->qual_type_info.type) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -240,7 +265,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                      case METAC_R_ITER_start: {
                         if (p->pointer_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pointer_type_info.type);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->pointer_type_info.type) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -292,12 +320,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         // otherwise we have anonimous data type and we'll need to identify it by declaration
+                        int next_state = 1;
                         for (int i = 0; i < p->structure_type_info.members_count; ++i) {
                             if (p->structure_type_info.members[i].member_info.type != NULL) {
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type);
+                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type) != 0) {
+                                    next_state = CDECL_ITER_failure;
+                                    break;
+                                }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, next_state);
                         continue;
                     }
                     case 1: {
@@ -324,6 +356,13 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                     name = dsprintf("%s",
                                         p->structure_type_info.members[i].name);        
                                 }
+                                if (name == NULL) {
+                                    if (type_pattern != NULL) {
+                                        free(type_pattern);
+                                    }
+                                    failure = 1;
+                                    break;
+                                }
                             }
                             // build field out of returned pattern and field name (can be absent)
                             char *field = trim_trailing_spaces(dsprintf((
@@ -347,17 +386,17 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (res != NULL) {
                                 free(res);
                             }
-                            if (new_res == NULL) {
+                            res = new_res;
+                            if (res == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            res = new_res;
                         }
                         if (failure != 0) {
                             if (res != NULL) {
                                 free(res);
                             }
-                            metac_recursive_iterator_set_state(p_iter, 2);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         // res contains all fields. wrap it
@@ -368,41 +407,38 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(res);
                         }
                         if (new_res == NULL) {
-                            metac_recursive_iterator_set_state(p_iter, 2);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         res = new_res;
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
-                    case 2: { // fail-cleanup
-                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
-                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                            if (type_pattern != NULL){
-                                free(type_pattern);
-                            }
-                        }
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
                 }
             }
             break;
             case METAC_KND_subprogram: {
                 switch (state) {
                     case METAC_R_ITER_start: {
+                        int next_state = 1;
                         if (p->subprogram_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type);// ask to process type on the next level
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type) != 0) { // ask to process type on the next level
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         for (int i = 0; i < p->subprogram_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subprogram_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
                                     p->subprogram_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type);
+                                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type) != 0) {
+                                        next_state = CDECL_ITER_failure;
+                                        break;
+                                    }
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, next_state);
                         continue;
                     }
                     case 1: {
@@ -411,7 +447,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subprogram_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                                 continue;
                             }
                         }
@@ -449,11 +485,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 if (param != NULL) {
                                     free(param);
                                 }
-                                if (new_params == NULL) {
+                                params = new_params;
+                                if (params == NULL) {
                                     failure = 1;
                                     break;
                                 }
-                                params = new_params;
                             }
                         }
                         if (failure != 0){
@@ -463,7 +499,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         // name with params is the declarator
@@ -477,7 +513,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         // put it into the pattern of the returned type
@@ -488,7 +524,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(type_pattern);
                         }
                         if (res == NULL) {
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         metac_recursive_iterator_done(p_iter, res);
@@ -500,18 +536,25 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_subroutine_type:{
                 switch (state) {
                     case METAC_R_ITER_start: {
+                        int next_state = 1;
                         if (p->subroutine_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type);// ask to process type on the next level
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type) != 0) { // ask to process type on the next level
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         for (int i = 0; i < p->subroutine_type_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subroutine_type_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
                                     p->subroutine_type_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type);
+                                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type) != 0) {
+                                        next_state = CDECL_ITER_failure;
+                                        break;
+                                    }
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, next_state);
                          continue;
                     }
                     case 1: {
@@ -520,7 +563,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subroutine_type_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                                 continue;
                             }
                         }
@@ -557,11 +600,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (param != NULL) {
                                 free(param);
                             }
-                            if (new_params == NULL) {
+                            params = new_params;
+                            if (params == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            params = new_params;
                         }
                         if (failure != 0) {
                             if (params != NULL) {
@@ -570,7 +613,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         // placeholder with params is the declarator
@@ -583,7 +626,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         // put it into the pattern of the returned type
@@ -594,7 +637,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(type_pattern);
                         }
                         if (res == NULL) {
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, CDECL_ITER_failure);
                             continue;
                         }
                         metac_recursive_iterator_done(p_iter, res);
-- 
2.43.0


From 6e787f32345abeb3d8a0deba4e565de4f32609bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:02 +0000
Subject: [PATCH 14/56] fix: value text reports lack of memory and releases
 everything it allocated

---
 src/value_string.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 762361c..e8bc3a3 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -239,7 +239,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 continue;                        
                             }
                             /* try to process everything as array */
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                                metac_value_delete(p_arr_val);
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                             metac_recursive_iterator_set_state(p_iter, 1);
                             continue;
                         }
@@ -328,7 +332,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                         continue;
                                     }
                                     if (ev.p_return_value != NULL) {
-                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                        if (metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                            metac_value_delete(ev.p_return_value);
+                                            metac_recursive_iterator_fail(p_iter);
+                                            continue;
+                                        }
                                     }
                                 }
                             }
@@ -340,7 +348,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                metac_value_delete(p_memb_val);
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
                     if (failure != 0) {
@@ -509,7 +521,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                            metac_value_delete(p_el_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (p_non_flexible != NULL) {
                         metac_value_delete(p_non_flexible);
@@ -606,7 +622,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
@@ -634,7 +654,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -642,7 +662,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
-- 
2.43.0


From 9e19bba6d063ac71050dffd062b1104aad9b4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:02 +0000
Subject: [PATCH 15/56] fix: deep operations report lack of memory and release
 everything they allocated

---
 src/value_deep.c | 152 +++++++++++++++++++++++++++++------------------
 1 file changed, 93 insertions(+), 59 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 24e1aaf..7a6a592 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -174,41 +174,24 @@ void metac_memory_entry_delete(struct metac_memory_entry * p_memory_entry) {
     if (p_memory_entry == NULL) {
         return;
     }
-    metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_memory_entry);
-    for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
-        p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
-        int state = metac_recursive_iterator_get_state(p_iter);
-        switch (state) {
-            case METAC_R_ITER_start: {
-                if (p->p_val != NULL) {
-                    metac_value_delete(p->p_val);
-                }
-                if (p->children_count == 0) {
-                    assert(p->pp_children == NULL);
-                    free(p);
-                    metac_recursive_iterator_done(p_iter, NULL);
-                    continue;
-                }
-                for (metac_num_t i = 0; i < p->children_count; ++i) {
-                    if (p->pp_children[i] != NULL) {
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
-                    }
-                }
-                metac_recursive_iterator_set_state(p_iter, 1);
-                continue;
-            }
-            case 1: {
-                while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
-                    metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                }
-                free(p->pp_children);
-                free(p);
-                metac_recursive_iterator_done(p_iter, NULL);
-                continue;
+    /* this is used to cleanup after failures - it must not allocate memory */
+    struct metac_memory_entry * p = p_memory_entry;
+    while (p != NULL) {
+        if (p->children_count > 0) {
+            --p->children_count;
+            if (p->pp_children[p->children_count] != NULL) {
+                p = p->pp_children[p->children_count]; // delete this first, it will return to the parent
             }
+            continue;
         }
+        struct metac_memory_entry * p_parent = (p == p_memory_entry)?NULL:p->p_parent;
+        if (p->p_val != NULL) {
+            metac_value_delete(p->p_val);
+        }
+        free(p->pp_children);
+        free(p);
+        p = p_parent;
     }
-    metac_recursive_iterator_free(p_iter);
 }
 
 static int addr_ptr_key_hash(void* key) {
@@ -350,12 +333,14 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
 
     struct metac_memory_map *p_map = calloc(1, sizeof(*p_map));
     if (p_map == NULL) {
+        metac_value_delete(p_val);
         return NULL;
     }
     if (p_map_mode->memory_block_mode == METAC_MMODE_dag) {
         p_map->p_addr_ptr_val_to_memory_entry = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
         if (p_map->p_addr_ptr_val_to_memory_entry == NULL) {
             free(p_map);
+            metac_value_delete(p_val);
             return NULL;
         }
     }
@@ -418,7 +403,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                             continue;
                                         }
                                         if (ev.p_return_value != NULL) {
-                                            metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                            if (metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                                metac_value_delete(ev.p_return_value);
+                                                metac_recursive_iterator_fail(p_iter);
+                                                continue;
+                                            }
                                             children_count = 1;
                                         }
                                     }
@@ -435,7 +424,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     failure = 1;
                                     break;
                                 }
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                    metac_value_delete(p_memb_val);
+                                    failure = 1;
+                                    break;
+                                }
                                 ++children_count;
                             }
                         }
@@ -491,7 +484,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                                metac_value_delete(p_el_val);
+                                failure = 1;
+                                break;
+                            }
                             ++children_count;
                         }
 
@@ -698,12 +695,20 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         continue;                        
                     }
                     /* finally we have p_arr_val which will be the child */
-                    metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
                     struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 1);
                     if (p_memory_entry == NULL) {
+                        metac_value_delete(p_arr_val);
                         metac_recursive_iterator_fail(p_iter);
                         continue;                 
                     }
+                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                        // p_in stil must exist if we fail
+                        p_memory_entry->p_val = NULL;
+                        metac_memory_entry_delete(p_memory_entry);
+                        metac_value_delete(p_arr_val);
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
 
                     metac_recursive_iterator_set_context(p_iter, p_memory_entry);
                     metac_recursive_iterator_set_state(p_iter, 1);
@@ -791,7 +796,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
@@ -973,7 +982,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            p_context->free_fn(dst);
             p_context->preallocation_failed = 1;
             return false;
         }
@@ -996,6 +1005,19 @@ static bool _value_copy_free(void* key, void* value, void* context) {
     return true;
 }
 
+/* request to copy the child to the destination set in private_data */
+static int _value_copy_append_child(metac_recursive_iterator_t * p_iter, struct metac_memory_entry * p_child) {
+    if (p_child->private_data == NULL) {
+        return -(ENOMEM);
+    }
+    int res = metac_recursive_iterator_create_and_append_dep(p_iter, p_child);
+    if (res != 0) {
+        metac_value_delete((metac_value_t*)p_child->private_data);
+        p_child->private_data = NULL;
+    }
+    return res;
+}
+
 /* copy src to dst (with rewriting data), be careful, dst must have enough space.
 don't use flexibe array. instead make val as a ptr to that flexible array so 
 the function will create a pointer and create a deep copy for everything it points to.
@@ -1061,13 +1083,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* all allocated blocks are stored here. in tree mode it's needed only to free them in case of failure */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;   
+    }
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1110,6 +1133,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1213,16 +1241,21 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         continue;   
                     }
 
+                    int next_state = 1;
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
                         if (p->pp_children[i] != NULL) {
                             p->pp_children[i]->private_data = metac_parameter_storage_new_param_value(p_dst_param_storage, i);
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                            if (_value_copy_append_child(p_iter, p->pp_children[i]) != 0) {
+                                next_state = 2;
+                                break;
+                            }
                         }
                     }
-                    metac_recursive_iterator_set_state(p_iter, 1);
+                    metac_recursive_iterator_set_state(p_iter, next_state);
                     continue;
                 }
                 /* complex types will be covered here: */
+                int next_state = 1;
                 for (metac_num_t i = 0; i < p->children_count; ++i) {
                     if (p->pp_children[i] != NULL) {
                         if (p->children_count == 1 && p_dst_children_addr_override != NULL) {
@@ -1231,14 +1264,18 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_size_t delta = metac_value_addr(p->pp_children[i]->p_val) - metac_value_addr(p->p_val);
                             p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                        if (_value_copy_append_child(p_iter, p->pp_children[i]) != 0) {
+                            next_state = 2;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, next_state);
                 continue;
             }
-            case 1: {
-                int gfail = 0;
+            case 1:
+            case 2: { /* not all children were requested */
+                int gfail = (state == 2)?1:0;
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p_children = NULL;
@@ -1247,13 +1284,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
@@ -1385,20 +1415,24 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     }
                 }
                 /* complex types will be covered here: */
+                int next_state = 1;
                 for (metac_num_t i = 0; i < p1->children_count; ++i) {
                     assert(p1->pp_children[i] != NULL && p2->pp_children[i] != NULL);
                     if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL) {
                         p1->pp_children[i]->private_data = p2->pp_children[i];
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]) != 0) {
+                            next_state = 2;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, next_state);
                 continue;
 
             }
             case 1:
             default: {
-                int gfail = 0;
+                int gfail = (state == 2)?1:0; /* not all children were requested */
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p1_children = NULL;
-- 
2.43.0


From 03b51c3c8076119111afe8bd00b9aa9224770272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:17 +0000
Subject: [PATCH 16/56] fix: tag lookup continues when a category with an
 external map has no tag

---
 src/entry_tag.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..2327bd3 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -181,8 +181,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
                 return p_ext_res;
             }
         }
-        if (p_tag_map->p_categories[i].p_map == NULL) {
-            assert(0);
+        if (p_tag_map->p_categories[i].p_map == NULL) { /* nothing was found in the external map */
             continue;
         }
 
-- 
2.43.0


From f28967b7d1356dedf32a3fc593a4b7a09356b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:17 +0000
Subject: [PATCH 17/56] fix: tag map that couldn't store a tag releases the
 copied string and leaves the data to the caller

---
 src/entry_tag.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 2327bd3..1823f15 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -101,6 +101,14 @@ void metac_tag_map_delete(metac_tag_map_t * p_tag_map) {
     free(p_tag_map);
 }
 
+/* the map couldn't be created. data of the default tag still belongs to the caller */
+static void _tag_map_delete_failed(metac_tag_map_t * p_tag_map) {
+    if (p_tag_map->p_default_tag != NULL) {
+        p_tag_map->p_default_tag->p_context = NULL;
+    }
+    metac_tag_map_delete(p_tag_map);
+}
+
 metac_tag_map_t * metac_new_tag_map_ex(metac_num_t categories_count, metac_tag_map_entry_t * p_map_entries, metac_entry_tag_t *p_default_tag) {
     if (categories_count <= 0 || p_map_entries == NULL) {
         return NULL;
@@ -119,13 +127,12 @@ metac_tag_map_t * metac_new_tag_map_ex(metac_num_t categories_count, metac_tag_m
         }
     }
 
-    p_tag_map->categories_count = categories_count;
     p_tag_map->p_categories = calloc(categories_count, sizeof(*p_tag_map->p_categories));
     if (p_tag_map->p_categories == NULL) {
-        _entry_tag_delete(p_tag_map->p_default_tag);
-        free(p_tag_map);
+        _tag_map_delete_failed(p_tag_map);
         return NULL;
     }
+    p_tag_map->categories_count = categories_count;
 
     for (metac_num_t i = 0; i < categories_count; ++i) {
         p_tag_map->p_categories[i].mask = p_map_entries[i].mask;
@@ -133,7 +140,7 @@ metac_tag_map_t * metac_new_tag_map_ex(metac_num_t categories_count, metac_tag_m
         if (p_map_entries[i].p_ext_map == NULL) {
             p_tag_map->p_categories[i].p_map = hashmapCreate(1024, addr_ptr_key_hash_tags, addr_ptr_key_equals_tags);
             if (p_tag_map->p_categories[i].p_map == NULL) {
-                metac_tag_map_delete(p_tag_map);
+                _tag_map_delete_failed(p_tag_map);
                 return NULL;
             }
         }
@@ -226,7 +233,8 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
-        free(p_local_tag);
+        p_local_tag->p_context = NULL; /* still belongs to the caller */
+        _entry_tag_delete(p_local_tag);
         return -(EFAULT);
     }
 
-- 
2.43.0


From 1b2de137abbd81f68191e6ba91104ebd384c094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:42 +0000
Subject: [PATCH 18/56] fix: count_by handler reports a missing sibling and a
 negative count instead of showing a wrong number of elements

---
 src/entry_tag.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 1823f15..490f82f 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -405,6 +405,9 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         if (metac_value_has_members(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(EFAULT);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -416,12 +419,18 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     return -(EFAULT);
                 }
                 metac_value_delete(p_sibling_val);
+                if (content_len < 0) { /* negative means flexible array */
+                    return -(EFAULT);
+                }
                 p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
                 return 0;
             }
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(EFAULT);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -433,12 +442,14 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     return -(EFAULT);
                 }
                 metac_value_delete(p_sibling_val);
+                if (content_len < 0) { /* negative means flexible array */
+                    return -(EFAULT);
+                }
                 p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
                 return 0;
             }
-        } else {
-            return -(EFAULT);
         }
+        return -(EFAULT); /* there is no such sibling */
     }    
     return 0;
 }
-- 
2.43.0


From 65499d4472dde6e4482730debc40eba55e4dedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:48 +0000
Subject: [PATCH 19/56] fix: ptr_cast handler reports a missing counter and a
 negative count instead of crashing or showing a wrong number of elements

---
 src/entry_tag.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 490f82f..74c8558 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -768,6 +768,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
             return -(EINVAL);
         }
         metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, type_id);
+        if (p_sibling_val == NULL) {
+            return -(EFAULT);
+        }
         if (metac_value_num(p_sibling_val, &content_type) != 0) {
             metac_value_delete(p_sibling_val);
             return -(EINVAL);
@@ -777,13 +780,21 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         metac_num_t content_count = 1;
         if (p_cnxt->sibling_count_fieldname != NULL && strcmp(p_cnxt->sibling_count_fieldname, "") != 0) {
             metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_count_fieldname);
-
+            if (count_id < 0) {
+                return -(EINVAL);
+            }
             metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, count_id);
+            if (p_sibling_val == NULL) {
+                return -(EFAULT);
+            }
             if (metac_value_num(p_sibling_val, &content_count) != 0) {
                 metac_value_delete(p_sibling_val);
                 return -(EINVAL);
             } 
             metac_value_delete(p_sibling_val);
+            if (content_count < 0) { /* negative means flexible array */
+                return -(EINVAL);
+            }
         }
 
         for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {
-- 
2.43.0


From 509801853e53fd8796488ce3c15f8f4ebeca5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:13 +0000
Subject: [PATCH 20/56] fix: zero_ended_string handler works for flexible
 arrays

---
 src/entry_tag.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 74c8558..f05e843 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -462,19 +462,30 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
         
         metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
-        if (p_val == NULL || metac_value_is_pointer(p_val) == 0) {
+        if (p_val == NULL) {
             return -(EFAULT);
         }
-        metac_entry_t *p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+        metac_entry_t *p_target_entry = NULL;
+        char * ptr = NULL;
+        if (p_ev->type == METAC_RQVST_flex_array_count) {
+            if (metac_value_has_elements(p_val) == 0) {
+                return -(EFAULT);
+            }
+            p_target_entry = metac_entry_final_entry(metac_entry_element_entry(metac_value_entry(p_val)), NULL);
+            ptr = (char *)metac_value_addr(p_val);
+        } else {
+            if (metac_value_is_pointer(p_val) == 0) {
+                return -(EFAULT);
+            }
+            p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+            if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
+                return -(EFAULT);
+            }
+        }
         if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
             metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
             return -(EFAULT);
         }
-
-        char * ptr = NULL;
-        if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
-            return -(EFAULT);
-        }
         if (ptr == NULL) {
             return -(EFAULT); /* shouldn't be here*/
         }
-- 
2.43.0


From f938b333f2a79b1661beb7d257f24d179b4a92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:19 +0000
Subject: [PATCH 21/56] fix: permanent selection of a union member works for a
 union that isn't a part of another value

---
 src/entry_tag.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index f05e843..2cffedc 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -604,8 +604,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
     if (p_ev == NULL) {
         return -(EINVAL);
     }
-    if (p_ev->type == METAC_RQVST_union_member && 
-        metac_value_walker_hierarchy_level(p_hierarchy) > 0) {
+    if (p_ev->type == METAC_RQVST_union_member) {
 
         struct metac_union_member_select_by_context *p_cnxt = (struct metac_union_member_select_by_context *)p_context;
         if (p_cnxt == NULL) {
@@ -620,6 +619,10 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     return -(EINVAL);
                 }
 
+                if (metac_value_walker_hierarchy_level(p_hierarchy) <= 0) { /* there are no siblings */
+                    break;
+                }
+
                 metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
                 metac_value_t *p_parent_val = metac_value_walker_hierarchy_value(p_hierarchy, 1);
                 if (p_val == NULL || p_parent_val == NULL || 
@@ -630,6 +633,9 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
 
                 for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                     metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                    if (p_sibling_val == NULL) {
+                        return -(EFAULT);
+                    }
                     if (metac_value_name(p_sibling_val) == NULL ||
                         strcmp(metac_value_name(p_sibling_val),p_cnxt->sibling_selector_fieldname) !=0 ) {
                         metac_value_delete(p_sibling_val);
-- 
2.43.0


From 68fc46ec144b580f89a1a37e86f9638a60b6fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:45 +0000
Subject: [PATCH 22/56] fix: comparison of base type values of different types
 answers not equal instead of failing

---
 src/value_base_type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 8c16b04..79cc60c 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -266,7 +266,7 @@ int metac_value_equal_base_type(metac_value_t *p_val1, metac_value_t *p_val2) {
     do { \
         if ( metac_value_is_##_pseudoname_(p_val1) != 0) { \
             if (metac_value_is_##_pseudoname_(p_val2) == 0) { \
-                return -(EFAULT); \
+                return (metac_value_is_base_type(p_val2) != 0)?0:-(EFAULT); \
             } \
             _type_ v1, v2; \
             if (metac_value_##_pseudoname_(p_val1, &v1) != 0) { \
-- 
2.43.0


From be1a178452e61fb81f933f6a1a5dc82c8e09faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:15 +0000
Subject: [PATCH 23/56] fix: handlers report a failed creation of the result
 instead of showing a default extent

---
 src/entry_tag.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 2cffedc..40b69db 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -382,6 +382,24 @@ void metac_count_by_context_delete(void *p_context) {
     free(p_cnxt);
 }
 
+/* creates array of elements and puts it to the event. there are no arrays of void - this is the only case when there can be no content */
+static int _event_set_element_count(metac_value_event_t * p_ev, metac_value_t *p_val, metac_num_t count) {
+    p_ev->p_return_value = metac_new_element_count_value(p_val, count);
+    if (p_ev->p_return_value == NULL && metac_value_is_void_pointer(p_val) == 0) {
+        return -(EFAULT);
+    }
+    return 0;
+}
+
+/* puts the member to the event. there is no content if there is no member with this id */
+static int _event_set_member(metac_value_event_t * p_ev, metac_value_t *p_val, metac_num_t id) {
+    p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
+    if (p_ev->p_return_value == NULL && id >= 0 && id < metac_value_member_count(p_val)) {
+        return -(EFAULT);
+    }
+    return 0;
+}
+
 int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_value_event_t * p_ev, void *p_context) {
     if (p_ev == NULL) {
         return -(EINVAL);
@@ -422,8 +440,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 if (content_len < 0) { /* negative means flexible array */
                     return -(EFAULT);
                 }
-                p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return _event_set_element_count(p_ev, p_val, content_len);
             }
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
@@ -445,8 +462,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 if (content_len < 0) { /* negative means flexible array */
                     return -(EFAULT);
                 }
-                p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return _event_set_element_count(p_ev, p_val, content_len);
             }
         }
         return -(EFAULT); /* there is no such sibling */
@@ -490,8 +506,7 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
             return -(EFAULT); /* shouldn't be here*/
         }
         metac_num_t content_len = strlen(ptr) + 1;
-        p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-        return 0;
+        return _event_set_element_count(p_ev, p_val, content_len);
     }    
     return 0;
 }
@@ -533,9 +548,9 @@ int metac_handle_container_of(metac_value_walker_hierarchy_t *p_hierarchy, metac
             if (p_container_ptr_val == NULL) {
                 return -(ENOMEM);
             }
-            p_ev->p_return_value = metac_new_element_count_value(p_container_ptr_val, 1);
+            int res = _event_set_element_count(p_ev, p_container_ptr_val, 1);
             metac_value_delete(p_container_ptr_val);
-            return 0;
+            return res;
         }
     }
     return 0;
@@ -669,8 +684,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                             return -(ENOENT);
                         }
                     }
-                    p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
-                    return 0;
+                    return _event_set_member(p_ev, p_val, id);
                 }
             }
             break;
@@ -680,8 +694,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     metac_value_has_members(p_val) == 0) {
                     return -(EINVAL);
                 }
-                p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
-                return 0;
+                return _event_set_member(p_ev, p_val, p_cnxt->permanent_id);
             }
             break;
         }
@@ -823,9 +836,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 if (p_cast_ptr_val == NULL) {
                     return -(ENOMEM);
                 }
-                p_ev->p_return_value = metac_new_element_count_value(p_cast_ptr_val, content_count);
+                int res = _event_set_element_count(p_ev, p_cast_ptr_val, content_count);
                 metac_value_delete(p_cast_ptr_val);
-                return 0;
+                return res;
             }
         }
     }
-- 
2.43.0


From 5dd51101275bf5d13bc6a34fdfbe4a0485861ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 24/56] fix: printf flags 0 and space are recognised, width and
 precision are decimal with any flag

---
 src/printf_format.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..414ea8d 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -37,7 +37,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         } else if (format[*pos] == '0') {
             p_specifier->flags.oct = 1;
         } else if (format[*pos] == ' ') {
-            p_specifier->flags.oct = 1;
+            p_specifier->flags.space = 1;
         } else {
             break;
         }
@@ -48,11 +48,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
     p_specifier->format_len = 0;
     while (*pos < strlen(format) && isdigit(format[*pos])) {
         metac_num_t d = format[*pos] - '0';
-        if (p_specifier->flags.oct != 0) {
-            p_specifier->format_len = p_specifier->format_len * 8 + d;
-        } else {
-            p_specifier->format_len = p_specifier->format_len * 10 + d;
-        }
+        p_specifier->format_len = p_specifier->format_len * 10 + d;
         (*pos)++;
     }
 
@@ -63,11 +59,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         (*pos)++;
         while (*pos < strlen(format) && isdigit(format[*pos])) {
             metac_num_t d = format[*pos] - '0';
-            if (p_specifier->flags.oct != 0) {
-                p_specifier->precision = p_specifier->precision * 8 + d;
-            } else {
-                p_specifier->precision = p_specifier->precision * 10 + d;
-            }
+            p_specifier->precision = p_specifier->precision * 10 + d;
             (*pos)++;
         }
     }
-- 
2.43.0


From 348c1b0be8bafa52e0ce3a35bdbc11bc8ecd7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 25/56] fix: printf arguments are stored for adjacent
 specifiers and for specifiers after %%, malformed specifiers are refused

---
 src/printf_format.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 414ea8d..ceabd29 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -104,13 +104,16 @@ size_t metac_count_format_specifiers(const char *format) {
     metac_printf_specifier_t dummy_specifier;
 
     while (pos < strlen(format)) {
-        if (format[pos] == '%') {
+        if (format[pos] == '%' && format[pos + 1] == '%') {
+            pos += 2; // this is just %
+        } else if (format[pos] == '%') {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
-            num_specifiers++;
+                num_specifiers++;
             }
+        } else {
+            pos++;
         }
-        pos++;
     }
     return num_specifiers;
 }
@@ -170,7 +173,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
     metac_printf_specifier_t dummy_specifier;
 
     while (pos < strlen(format)) {
-        if (format[pos] == '%') {
+        if (format[pos] == '%' && format[pos + 1] == '%') {
+            pos += 2; // this is just %
+        } else if (format[pos] == '%') {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
@@ -325,10 +330,14 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+                ++param_id;
+            } else {
+                // it isn't possible to know what the arguments are
+                return -(EINVAL);
             }
-            ++param_id;
+        } else {
+            ++pos;
         }
-        ++pos;
     }
 
     return 0;
-- 
2.43.0


From 8da3248eed32b21ab8deb62a9bcd26d9d27e243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 26/56] fix: buffer of printf string argument fits the string,
 precision is respected

---
 src/printf_format.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index ceabd29..9adecf1 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -197,13 +197,15 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             metac_value_delete(p_param_value);
                             memcpy(p_param_value_ptr, &p, sizeof(p));
                         }else{
-                            size_t len = strlen(p);
+                            // precision limits the number of characters which can be read
+                            size_t len = (dummy_specifier.precision >= 0)?strnlen(p, dummy_specifier.precision):strlen(p);
                             metac_entry_t * p_param_with_len_entry = metac_new_element_count_entry(p_param_entry, len+1);
                             if (p_param_with_len_entry == NULL) {
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
@@ -213,7 +215,7 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             }
                             void * p_param_value_ptr = metac_value_addr(p_param_value);
                             metac_value_delete(p_param_value);
-                            memcpy(p_param_value_ptr, p, len+1);
+                            memcpy(p_param_value_ptr, p, len); // the buffer is filled with 0
                         }
                     }
                     break;
-- 
2.43.0


From 9ee6dcee1a603b17e18afa47fc0b221662e4b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 27/56] fix: printf arguments of all standard floating point
 specifiers are stored, wide characters aren't taken for narrow ones

---
 src/printf_format.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 9adecf1..d5c7fde 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -180,6 +180,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
                 case 's': {
+                        if (dummy_specifier.arg_len != psal_no) { // wide strings aren't supported
+                            return -(EFAULT);
+                        }
                         WITH_METAC_DECLLOC(decl, char * p = NULL);
                         p = (char*)va_arg(p_cntr->parameters, char*);
 
@@ -236,6 +239,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         memcpy(p_param_value_ptr, &p, sizeof(p)); \
                     }
                 case 'p'/* simple pointers */:
+                    if (dummy_specifier.arg_len != psal_no) {
+                        return -(EFAULT);
+                    }
                     _process(void*, void*);
                     break;
                 case 'n'/* n pointers */:
@@ -274,8 +280,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                 case 'c':
                 case 'i':
                 case 'd': {
-                        if (dummy_specifier.t == 'c' ||
-                            dummy_specifier.arg_len == psal_hh) {
+                        if ((dummy_specifier.t == 'c' && dummy_specifier.arg_len == psal_no) ||
+                            (dummy_specifier.t != 'c' && dummy_specifier.arg_len == psal_hh)) {
                             _process(char, int);
                         } else if (dummy_specifier.t != 'c') {
                             if (dummy_specifier.arg_len == psal_h) {
@@ -314,11 +320,16 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         }
                     }
                     break;
-                // unsigned
-                case 'f': 
+                // floating point
+                case 'f':
+                case 'F':
                 case 'g':
-                case 'e': {
-                        if (dummy_specifier.arg_len == psal_no) {
+                case 'G':
+                case 'e':
+                case 'E':
+                case 'a':
+                case 'A': {
+                        if (dummy_specifier.arg_len == psal_no || dummy_specifier.arg_len == psal_l) {
                             _process(double, double);
                         } else if (dummy_specifier.arg_len == psal_L) {
                             _process(long double, long double);
-- 
2.43.0


From 02fef0439ecb9fbafe549998056d22ea062c8102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:27 +0000
Subject: [PATCH 28/56] fix: buffer of the parameter isn't freed twice if
 structure can't be read from va_list

---
 src/value_with_args.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..e8686f2 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -430,8 +430,7 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
-                                addr = NULL;
+                                addr = NULL; // memory is owned by the storage
                                 break;
                             }
                         }
-- 
2.43.0


From 941865f081dce7ad57763902411bf51e3dd521b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:27 +0000
Subject: [PATCH 29/56] fix: failed creation of inner parameter storage is
 reported

---
 src/value_with_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index e8686f2..f046efd 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -151,7 +151,7 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
     assert(metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va_list_parameter(p_entry) != 0);
 
     metac_parameter_storage_t * p_inner_param_storage = metac_new_parameter_storage();
-    _check_(p_entry == NULL, -(ENOMEM));
+    _check_(p_inner_param_storage == NULL, -(ENOMEM));
 
     metac_parameter_t * p_param = _parameter_storage_append_by_buffer(p_param_storage,
         0,
-- 
2.43.0


From d262f1a6c479ec48107dbfa08c3279e07866124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:03 +0000
Subject: [PATCH 30/56] fix: va_list parameter without handler is taken from
 arguments, its value doesn't leak

---
 src/value_with_args.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index f046efd..742dacc 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -303,6 +303,17 @@ static void _handle_subprogram(
                     va_end(local_cntr.parameters);
                 }
                 metac_value_delete(ev.p_return_value);
+            } else { // content of the list is unknown, but the argument must be taken anyway
+#if VA_ARG_IN_VA_ARG != 0
+                if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
+#if __linux__
+                    (void)va_arg(p_va_list_container->parameters, void*);
+#else
+                    (void)va_arg(p_va_list_container->parameters, va_list);
+#endif
+                }
+#endif
+                metac_value_delete(ev.p_return_value);
             }
         } else { /* normal param */
             void * addr = NULL;
-- 
2.43.0


From b44382dea6fd562141ce3b1a39da9da64c7602f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:03 +0000
Subject: [PATCH 31/56] fix: printf format handler doesn't leak parameter value
 on failure

---
 src/entry_tag.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 40b69db..938b757 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -858,15 +858,11 @@ int metac_handle_printf_format(metac_value_walker_hierarchy_t *p_hierarchy, meta
     metac_entry_t *p_va_list_entry = metac_entry_by_paremeter_id(metac_value_entry(p_val), p_ev->va_list_param_id);
     metac_value_t *p_param_val = metac_value_parameter_new_item(p_val, p_ev->va_list_param_id -1 /* use previous param */);
 
-    if (p_va_list_entry == NULL) {
-        return -(EINVAL);
-    }
-
     if (p_param_val == NULL) {
         return -(EINVAL);
     }
 
-    if (metac_value_is_pointer(p_param_val) == 0) {
+    if (p_va_list_entry == NULL || metac_value_is_pointer(p_param_val) == 0) {
         metac_value_delete(p_param_val);
         return -(EINVAL);
     }
-- 
2.43.0


From 4698f9985d123e95228582b03a6723d6df81bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:03 +0000
Subject: [PATCH 32/56] fix: parameter storage doesn't leak if value of the
 call can't be created

---
 src/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value.c b/src/value.c
index a561c57..4ebc2ca 100644
--- a/src/value.c
+++ b/src/value.c
@@ -858,6 +858,9 @@ metac_value_t * metac_new_value_with_call_params(metac_entry_t *p_entry) {
     metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
     if (p_param_storage != NULL) {
         p_val = metac_new_value(p_entry, p_param_storage);
+        if (p_val == NULL) {
+            metac_parameter_storage_delete(p_param_storage);
+        }
     }
     return p_val;
 }
-- 
2.43.0


From f9c368f0f8916d87ca6395a3b0a0fb41e21668a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:03 +0000
Subject: [PATCH 33/56] fix: calls with empty ... or va_list are shown

---
 src/value_string.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index e8bc3a3..c39c4e0 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -698,6 +698,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                         } else { // building part of fn call - append value
                             metac_value_delete(p_param_val);
 
+                            if (param_out[0] == 0) { // ... without arguments
+                                free(param_out);
+                                continue;
+                            }
+
                             char *prev_out = out;
                             out = dsprintf("%s%s%s",
                                 prev_out == NULL?"":prev_out, /*must include , at the end */
@@ -726,12 +731,14 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     if (final_kind == METAC_KND_func_parameter) {
                         if (metac_entry_is_va_list_parameter(metac_value_entry(p))!=0) { // wrap with VA_LIST()
                             char *prev_out = out;
-                            out = dsprintf("VA_LIST(%s)",prev_out);
+                            out = dsprintf("VA_LIST(%s)", prev_out==NULL?"":prev_out);
                             free(prev_out);
-                            if (out == NULL) {
-                                metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
-                                continue;   
-                            }
+                        } else if (out == NULL) {
+                            out = dsprintf("%s", "");
+                        }
+                        if (out == NULL) {
+                            metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
+                            continue;
                         }
                         metac_recursive_iterator_done(p_iter, out);
                         continue;
-- 
2.43.0


From be9bd3e2b7a3e5d41f3fa270b4b451be59cdea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:35 +0000
Subject: [PATCH 34/56] fix: calls with non-empty va_list or ... are
 deep-copied, failed copy leaves the destination empty

---
 src/value_deep.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 7a6a592..59340b7 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1101,6 +1101,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         }
     }
 
+    metac_parameter_storage_t * p_filled_param_storage = NULL;
     context.p_map->p_top_entry->private_data = p_dst_val;
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(context.p_map->p_top_entry);
     for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
@@ -1112,7 +1113,8 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         switch (state) {
             case METAC_R_ITER_start: {
                 void * p_dst_children_addr_override = NULL;
-                if (metac_value_is_pointer(p->p_val)) {
+                if (metac_value_has_parameter_load(p->p_val) == 0 /* va_list parameter is a pointer too */ &&
+                    metac_value_is_pointer(p->p_val)) {
                     assert(p->children_count <= 1);
                     if (p->children_count == 1) {
                         size_t nmemb;
@@ -1231,14 +1233,17 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                 } else if (metac_value_has_parameter_load(p->p_val)) {
                     metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
                     metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
-                    if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
-                        // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
-                    if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;   
+                    if (p == context.p_map->p_top_entry) { // inner storages are copied together with the top one
+                        if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
+                            // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
+                        p_filled_param_storage = p_dst_param_storage;
+                        if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
                     }
 
                     int next_state = 1;
@@ -1312,6 +1317,9 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
 
     metac_value_memory_map_delete(context.p_map);
     if (fail != 0) {
+        if (p_filled_param_storage != NULL) { /* must stay empty as it was */
+            metac_parameter_storage_cleanup(p_filled_param_storage);
+        }
         return NULL;
     }
     return p_dst_val;
-- 
2.43.0


From 3886370a36c79f0502ba43cf14da11dc1cbafaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:17 +0000
Subject: [PATCH 35/56] fix: pointers to qualified or typedefed void and
 declared types are treated as such

---
 src/entry.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..ceee61e 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -298,14 +298,15 @@ metac_flag_t metac_entry_is_pointer(metac_entry_t *p_entry) {
 metac_flag_t metac_entry_is_void_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;
+    return p_final_entry != NULL && metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL) == NULL;
 }
 
 metac_flag_t metac_entry_is_declaration_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    if (p_final_entry != NULL && p_final_entry->pointer_type_info.type != NULL) {
-        return p_final_entry->pointer_type_info.type->declaration != 0;
+    if (p_final_entry != NULL) {
+        metac_entry_t * p_pointed_entry = metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL);
+        return p_pointed_entry != NULL && p_pointed_entry->declaration != 0;
     }
     return 0;
 }
-- 
2.43.0


From aa6b383b34a441594d881089eab296d314c47eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:30 +0000
Subject: [PATCH 36/56] fix: va_list parameter is recognised without memory
 allocation

---
 src/entry.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index ceee61e..0e3afae 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -642,15 +642,18 @@ metac_flag_t metac_entry_is_va_list_parameter(metac_entry_t * p_entry) {
     _check_(metac_entry_kind(p_entry) != METAC_KND_func_parameter, 0);
     _check_(p_entry->func_parameter_info.unspecified_parameters != 0, 0);
     
-    char * cdecl = metac_entry_cdecl(p_entry->func_parameter_info.type);
-    _check_(cdecl == NULL, 0);
-    int cmp_res = strcmp(cdecl, "va_list %s");
-    if (cmp_res != 0) { // linux
-        cmp_res = strcmp(cdecl, "struct __va_list_tag * %s");
+    // must not depend on memory allocation - the answer defines how the argument is stored
+    metac_entry_t * p_type = p_entry->func_parameter_info.type;
+    _check_(p_type == NULL, 0);
+    if (p_type->kind == METAC_KND_typedef) {
+        return p_type->name != NULL && strcmp(p_type->name, "va_list") == 0;
     }
-    free(cdecl);
-
-    return (cmp_res == 0);
+    if (p_type->kind == METAC_KND_pointer_type) { // linux
+        p_type = p_type->pointer_type_info.type;
+        return p_type != NULL && p_type->kind == METAC_KND_struct_type &&
+            p_type->name != NULL && strcmp(p_type->name, "__va_list_tag") == 0;
+    }
+    return 0;
 }
 
 metac_entry_t * metac_entry_parameter_entry(metac_entry_t *p_entry) {
-- 
2.43.0


From 7fa6b6d888c543fd32f4ec7984d9b0afc919e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:00 +0000
Subject: [PATCH 37/56] fix: METAC_DB_LINK_PTR returns the generated db

db.h declares METAC_DB_NAME() as a pointer to struct metac_db, but the template
defined the structure itself under that name, so the pointer was its first bytes.
---
 .../metac-reflect-gen/templates/_db_v0.tpl    | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_db_v0.tpl b/modules/metac-reflect-gen/templates/_db_v0.tpl
index c97c6a1..a79e593 100644
--- a/modules/metac-reflect-gen/templates/_db_v0.tpl
+++ b/modules/metac-reflect-gen/templates/_db_v0.tpl
@@ -11,19 +11,21 @@
 {{-       end -}}
 {{-     end }}
 /* db */
-struct metac_db METAC_DB_NAME() = {
-    .version = 0,
-    .db_v0 = {
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "base_types" $metaDb.BaseTypes)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "enums" $metaDb.EnumerationTypes)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "typedefs" $metaDb.Typedefs)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "structs" $metaDb.StructTypes)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "unions" $metaDb.UnionTypes)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "classes" $metaDb.ClassTypes)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "namespaces" $metaDb.Namespaces)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "variables" $metaDb.Variables)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "subprograms" $metaDb.Subprograms)) -}}
-{{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "compile_units" $metaDb.CompileUnits)) }}
+struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {
+    {
+        .version = 0,
+        .db_v0 = {
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "base_types" $metaDb.BaseTypes)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "enums" $metaDb.EnumerationTypes)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "typedefs" $metaDb.Typedefs)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "structs" $metaDb.StructTypes)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "unions" $metaDb.UnionTypes)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "classes" $metaDb.ClassTypes)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "namespaces" $metaDb.Namespaces)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "variables" $metaDb.Variables)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "subprograms" $metaDb.Subprograms)) -}}
+{{-   indent 12 (include "metac_reflect_gen.name_to_entries" (dict "compile_units" $metaDb.CompileUnits)) }}
+        },
     },
 };
 {{-   end -}}
-- 
2.43.0


From 720e78c52f7be4b0e948ad0f7ca14bf8aa9bedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:00 +0000
Subject: [PATCH 38/56] fix: different types with the same name are not merged

Signatures contain only names of the referred named types, so types which refer to
different types with the same name (local types of functions, types of different
compile units) were merged. Signature of DWARF3 bit-fields ignored byte offset.
---
 pkg/metadb/metadb_builder.go | 206 ++++++++++++++++++++++++++---------
 pkg/metadb/metadb_types.go   |   6 +-
 2 files changed, 158 insertions(+), 54 deletions(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index fc292d7..b72d9b0 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"path/filepath"
+	"sort"
 
 	"github.com/aodinokov/metac/pkg/dwarfy"
 	"github.com/huandu/xstrings"
@@ -823,86 +824,187 @@ func (builder *MetaDbBuilder) build() error {
 	return nil
 }
 
-func (builder *MetaDbBuilder) deduplicateTypes() error {
-	headerSignatures := map[string]*IndexEntry{}
-	signatures := map[string]map[string]*IndexEntry{}
-	// go via all indexes, find only types
+// sortedIndexes returns all indexes in the order of their offsets
+func (builder *MetaDbBuilder) sortedIndexes() []*IndexEntry {
+	indexes := make([]*IndexEntry, 0, len(builder.index))
 	for _, indx := range builder.index {
+		indexes = append(indexes, indx)
+	}
+	sort.Slice(indexes, func(i, j int) bool { return indexes[i].Offset < indexes[j].Offset })
+	return indexes
+}
+
+// typeReferences returns links to all entries the type is directly built from
+func typeReferences(ic ICommon) []*CommonLink {
+	var links []*CommonLink
+	addFunc := func(f *MixinFunc) {
+		links = append(links, &f.Type)
+		for _, p := range f.Param {
+			links = append(links, &p.Type)
+		}
+	}
+	switch x := ic.(type) {
+	case *QualType:
+		links = append(links, &x.Type)
+	case *Typedef:
+		links = append(links, &x.Type)
+	case *PointerType:
+		links = append(links, &x.Type)
+	case *ReferenceType:
+		links = append(links, &x.Type)
+	case *ArrayType:
+		links = append(links, &x.Type)
+	case *SubroutineType:
+		addFunc(&x.MixinFunc)
+	case *StructType:
+		for _, f := range x.Fields {
+			links = append(links, &f.Type)
+		}
+		for _, h := range x.Hierarchy {
+			links = append(links, &h.CommonLink)
+		}
+	case *Variable:
+		links = append(links, &x.Type)
+	case *Subprogram:
+		addFunc(&x.MixinFunc)
+	}
+	return links
+}
+
+// classifyTypes splits types into classes of equal types. Signature contains only names of the other named types,
+// but different types can share the same name (e.g. local types of functions or types from different compile units).
+// That's why it starts from signatures and splits classes until all members of every class refer to the same classes
+func (builder *MetaDbBuilder) classifyTypes(indexes []*IndexEntry) (map[ICommon]int, error) {
+	classes := map[ICommon]int{}
+	initial := map[string]int{}
+	for _, indx := range indexes {
 		if indx.p == nil {
 			continue
 		}
-		if isTypeTag(indx.Tag) {
-			// skip children of duplicated entries
-			pIndx, _, err := builder.getIndex(*indx.Entry.Parent)
-			if err != nil {
-				return err
+		signature := ""
+		var err error
+		switch indx.p.(type) {
+		case *Variable, *Subprogram: // they can be part of class
+			signature, err = indx.p.Signature(false)
+		default:
+			if !isTypeTag(indx.Tag) {
+				continue
 			}
-			if pIndx.isDuplicate {
-				indx.isDuplicate = true
+			// declarations can be compared only by header signature
+			signature, err = indx.p.Signature(!indx.isDeclaration())
+		}
+		if err != nil {
+			return nil, err
+		}
+		signature = fmt.Sprintf("%t,%s", indx.isDeclaration(), signature)
+		class, ok := initial[signature]
+		if !ok {
+			class = len(initial)
+			initial[signature] = class
+		}
+		classes[indx.p] = class
+	}
+	for count := len(initial); ; {
+		refined := map[string]int{}
+		next := map[ICommon]int{}
+		for _, indx := range indexes {
+			class, ok := classes[indx.p]
+			if indx.p == nil || !ok {
 				continue
 			}
+			key := fmt.Sprintf("%d", class)
+			for _, link := range typeReferences(indx.p) {
+				ref := link.p
+				if refIndx, ok := ref.(*IndexEntry); ok {
+					ref = refIndx.p
+				}
+				refClass, ok := classes[ref]
+				if ref == nil || !ok {
+					refClass = -1
+				}
+				key += fmt.Sprintf(",%d", refClass)
+			}
+			class, ok = refined[key]
+			if !ok {
+				class = len(refined)
+				refined[key] = class
+			}
+			next[indx.p] = class
+		}
+		classes = next
+		if len(refined) == count {
+			return classes, nil
+		}
+		count = len(refined)
+	}
+}
 
-			hs, err := indx.p.Signature(false)
+func (builder *MetaDbBuilder) deduplicateTypes() error {
+	signatures := map[string]map[string]*IndexEntry{}
+	representatives := map[int]*IndexEntry{}
+	indexes := builder.sortedIndexes()
+	classes, err := builder.classifyTypes(indexes)
+	if err != nil {
+		return err
+	}
+	// go via all indexes, find only types
+	for _, indx := range indexes {
+		if indx.p == nil {
+			continue
+		}
+		if isTypeTag(indx.Tag) {
+			pIndx, _, err := builder.getIndex(*indx.Entry.Parent)
 			if err != nil {
 				return err
 			}
-			if indx.isDeclaration() { // declarations can be deduplicated by header signature
-				found, ok := headerSignatures[hs]
-				if ok {
+			class := classes[indx.p]
+			found, ok := representatives[class]
+			if ok {
+				if !pIndx.isDuplicate { // otherwise the same parent is already there
 					//merge parents
 					icmnt := indx.GetCommonType()
 					fcmnt := found.GetCommonType()
 					if icmnt == nil || fcmnt == nil {
-						return fmt.Errorf("coun't merge parents - one of the object isn't type")
+						return fmt.Errorf("couldn't merge parents - one of the objects isn't type")
 					}
 					fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
-					//dedup
-					indx.isDuplicate = true
-					indx.p = found.p
-					continue
 				}
-				headerSignatures[hs] = indx
+				//dedup
+				indx.isDuplicate = true
+				indx.p = found.p
+				continue
+			}
+			representatives[class] = indx
+			if indx.isDeclaration() {
 				builder.appendDb(indx.p)
 				continue
 			}
-			// non-declaration... hmm.. use comparable signature (may want to rework this later if needed)
+
+			hs, err := indx.p.Signature(false)
+			if err != nil {
+				return err
+			}
 			cs, err := indx.p.Signature(true)
 			if err != nil {
 				return err
 			}
 			foundMap, ok := signatures[hs]
-			if ok {
-				found, ok := foundMap[cs]
-				if ok {
-					//merge parents
-					icmnt := indx.GetCommonType()
-					fcmnt := found.GetCommonType()
-					if icmnt == nil || fcmnt == nil {
-						return fmt.Errorf("couldn't merge parents - one of the objects isn't type")
-					}
-					fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
-					//dedup
-					indx.isDuplicate = true
-					indx.p = found.p
-					continue
-				}
-
-				if indx.Entry.Tag != "BaseType" { /* developer doesn't define base types. Clang can generate Complex base type with different sizes */
-					// warning - we have several types with the same name, but different structure
-					emsg := fmt.Sprintf("WARNING:\n%s: %s doesn't match with previous definition of %s from",
-						indx.MixinDeclLocation.toString(indx.cu), cs, hs)
-					for fcs, found := range foundMap {
-						emsg += fmt.Sprintf("\n%s: %s", found.MixinDeclLocation.toString(found.cu), fcs)
-					}
-					log.Print(emsg)
+			if !ok {
+				foundMap = map[string]*IndexEntry{}
+				signatures[hs] = foundMap
+			}
+			_, ok = foundMap[cs]
+			if !ok && len(foundMap) > 0 &&
+				indx.Entry.Tag != "BaseType" { /* developer doesn't define base types. Clang can generate Complex base type with different sizes */
+				// warning - we have several types with the same name, but different structure
+				emsg := fmt.Sprintf("WARNING:\n%s: %s doesn't match with previous definition of %s from",
+					indx.MixinDeclLocation.toString(indx.cu), cs, hs)
+				for fcs, found := range foundMap {
+					emsg += fmt.Sprintf("\n%s: %s", found.MixinDeclLocation.toString(found.cu), fcs)
 				}
-
-				foundMap[cs] = indx
-				builder.appendDb(indx.p)
-				continue
-
+				log.Print(emsg)
 			}
-			signatures[hs] = map[string]*IndexEntry{cs: indx}
+			foundMap[cs] = indx
 			builder.appendDb(indx.p)
 		} //else {
 		// TODO: dedup for hierarchy objects... - declarations of variables and subroutines
diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 7383df6..3a0866c 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -578,8 +578,10 @@ func (s *StructType) Signature(comparable bool) (string, error) {
 			}
 			if p.BitOffset != nil {
 				signature += "BitOffset:" + fmt.Sprintf("%d", *p.BitOffset) + ","
-			} else {
-				signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
+			}
+			signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
+			if p.ByteSize != nil {
+				signature += "ByteSize:" + fmt.Sprintf("%d", *p.ByteSize) + ","
 			}
 			if p.DataBitOffset != nil {
 				signature += "DataBitOffset:" + fmt.Sprintf("%d", *p.DataBitOffset) + ","
-- 
2.43.0


From 0ec07f7eb71fcc9a27bf065a27c5dc391ee213e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:00 +0000
Subject: [PATCH 39/56] fix: entry of the variable definition is used when
 there is also its declaration

For extern int x[]; int x[5]; compiler generates declaration and definition which refers
to the declaration and has no own name: it was not possible to find it by location and
METAC_GSYM_LINK returned the incomplete declaration.
---
 .../templates/_glob_responses.tpl             | 14 ++++++++++--
 pkg/metadb/metadb_builder.go                  | 22 +++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_glob_responses.tpl b/modules/metac-reflect-gen/templates/_glob_responses.tpl
index 299f45d..f4e6239 100644
--- a/modules/metac-reflect-gen/templates/_glob_responses.tpl
+++ b/modules/metac-reflect-gen/templates/_glob_responses.tpl
@@ -27,6 +27,9 @@
 {{-   $hierarchy := index . "hierarchy" -}}
 {{-   $resNameMacro := index . "resNameMacro" -}}
 {{-   $resName := index . "resName" -}}
+{{- /* prefer definition if the hierarchy contains also declaration(s) with the same name */ -}}
+{{-   $id := "" -}}
+{{-   $declaration := true -}}
 {{-   range $i,$h := $hierarchy -}}
 {{-     if or (eq $h.Kind "Variable") (eq $h.Kind "Subprogram") -}}
 {{-       $var := "" -}}
@@ -37,8 +40,12 @@
 {{-         $var = index $metaDb.Subprograms $h.Id -}}
 {{-       end -}}
 {{-       with $var -}}
-{{-         if eq (toJson $resName) (toJson .Name) }}
-struct metac_entry *{{ $resNameMacro }}({{ $var.Name }}) = &{{$h.Id}};
+{{-         if eq (toJson $resName) (toJson .Name) -}}
+{{-           $var_declaration := eq (toJson .Declaration) "true" -}}
+{{-           if or (eq $id "") (and $declaration (not $var_declaration)) -}}
+{{-             $id = toString $h.Id -}}
+{{-             $declaration = $var_declaration -}}
+{{-           end -}}
 {{-         end -}}
 {{-       end -}}
 {{-     end -}}
@@ -50,4 +57,7 @@ struct metac_entry *{{ $resNameMacro }}({{ $var.Name }}) = &{{$h.Id}};
 {{-       end -}}
 {{-     end -}}
 {{-   end -}}
+{{-   if ne $id "" }}
+struct metac_entry *{{ $resNameMacro }}({{ $resName }}) = &{{ $id }};
+{{-   end -}}
 {{- end -}}
diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index b72d9b0..b8a2223 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -141,6 +141,27 @@ func NewMetaDb(data *dwarfy.Data) (*MetaDb, error) {
 	return builder.metaDb, nil
 }
 
+// completeVariable returns variable entry with the attributes of the declaration which it completes
+// e.g. for "extern int x[]; int x[5];" compiler doesn't repeat name and everything that hasn't changed
+func (builder *MetaDbBuilder) completeVariable(entry *dwarfy.Entry) *dwarfy.Entry {
+	specOffset, ok := entry.Val("Specification").(dwarfy.Offset)
+	if !ok || entry.Tag != "Variable" {
+		return entry
+	}
+	spec, ok := builder.data.Entries[specOffset]
+	if !ok || spec.Tag != "Variable" || entry.Parent == nil || spec.Parent == nil || *spec.Parent != *entry.Parent {
+		return entry
+	}
+	completed := *entry
+	completed.Fields = append([]*dwarfy.Field{}, entry.Fields...)
+	for _, field := range spec.Fields {
+		if field.Attr != "Declaration" && field.Attr != "Sibling" && entry.AttrField(field.Attr) == nil {
+			completed.Fields = append(completed.Fields, field)
+		}
+	}
+	return &completed
+}
+
 func (builder *MetaDbBuilder) getIndex(offset dwarfy.Offset) (*IndexEntry, bool, error) {
 	entry, ok := builder.data.Entries[offset]
 	if !ok {
@@ -148,6 +169,7 @@ func (builder *MetaDbBuilder) getIndex(offset dwarfy.Offset) (*IndexEntry, bool,
 	}
 	indexEntry, ok := builder.index[offset]
 	if !ok { // create, init and register
+		entry = builder.completeVariable(entry)
 		indexEntry = &IndexEntry{Offset: offset}
 		indexEntry.fromEntry(entry)
 		builder.index[offset] = indexEntry
-- 
2.43.0


From cbb3d702b6e7e26e7f89355ecc62599b333f709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 40/56] fix: types described inside of function types are not
 lost

---
 pkg/metadb/metadb_builder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index b8a2223..be44940 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -389,7 +389,12 @@ func (builder *MetaDbBuilder) processSubroutineType(cu *CompileUnit, parent ICom
 	index.cu = cu
 	index.Set(&subroutineType)
 	subroutineType.fromEntry(index.Entry)
-	err := builder.processMixinFunc(&subroutineType.MixinFunc, index.Entry, nil)
+	err := builder.processMixinFunc(&subroutineType.MixinFunc, index.Entry,
+		func(i int, childOffset dwarfy.Offset, childEntry *dwarfy.Entry) error {
+			// compiler can put types of the parameters here
+			_, err := builder.processEntry(cu, parent, childOffset)
+			return err
+		})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b2ad547b67c40a3fd553d8fe562e39c81d2f2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 41/56] fix: override that is null doesn't crash the merge

---
 pkg/override/override.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/override/override.go b/pkg/override/override.go
index c5e70cd..7d5a5d6 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -35,6 +35,9 @@ func New(override string) (*map[string]interface{}, error) {
 	if err != nil {
 		return nil, fmt.Errorf("couldn't unmarshal yaml override %s: %v", override, err)
 	}
+	if *overrideUnstr == nil { // yaml document was null
+		*overrideUnstr = map[string]interface{}{}
+	}
 	return overrideUnstr, nil
 }
 
-- 
2.43.0


From 83d9359043ba15e2ff605ae55f9a6725d55e997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 42/56] fix: failed run is seen in the exit status

---
 main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 9ff9267..2e137f1 100644
--- a/main.go
+++ b/main.go
@@ -1,7 +1,13 @@
 package main
 
-import "github.com/aodinokov/metac/cmd/run"
+import (
+	"os"
+
+	"github.com/aodinokov/metac/cmd/run"
+)
 
 func main() {
-	run.NewCommand().Execute()
+	if err := run.NewCommand().Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 57e36606ad7a2867ecd01fbb9a655e40db954797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 43/56] fix: compile unit without a line table doesn't crash
 reading of dwarf

---
 pkg/dwarfy/dwarf.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index a55acaf..97bcb6a 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -248,13 +248,15 @@ func NewEntry(dwarfData *dwarf.Data, dwarfEntry *dwarf.Entry) (*Entry, error) {
 			return nil, err
 		}
 		var declFiles []string
-		for _, f := range lreader.Files() {
-			if f == nil {
-				// to keep the same index
-				declFiles = append(declFiles, "")
-				continue
+		if lreader != nil { // nil if the unit doesn't have the line table
+			for _, f := range lreader.Files() {
+				if f == nil {
+					// to keep the same index
+					declFiles = append(declFiles, "")
+					continue
+				}
+				declFiles = append(declFiles, f.Name)
 			}
-			declFiles = append(declFiles, f.Name)
 		}
 		entry.DeclFiles = &declFiles
 	}
-- 
2.43.0


From 74ea09bc7b5e96ba2101cbb89ea1647fb2a0536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 44/56] fix: 64bit values aren't rounded when dwarf data is
 read from json

---
 pkg/dwarfy/dwarf.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index 97bcb6a..a47d046 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -1,9 +1,11 @@
 package dwarfy
 
 import (
+	"bytes"
 	"debug/dwarf"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 
 	"gopkg.in/yaml.v3"
@@ -164,6 +166,10 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = uint64(f.Val.(float64))
 		case int:
 			f.Val = uint64(f.Val.(int))
+		case json.Number:
+			if val, err := strconv.ParseUint(f.Val.(json.Number).String(), 10, 64); err == nil {
+				f.Val = val
+			}
 		}
 	case "ClassReference":
 		switch f.Val.(type) {
@@ -171,6 +177,10 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = Offset(f.Val.(float64))
 		case int:
 			f.Val = Offset(f.Val.(int))
+		case json.Number:
+			if val, err := strconv.ParseUint(f.Val.(json.Number).String(), 10, 32); err == nil {
+				f.Val = Offset(val)
+			}
 		case dwarf.Offset:
 			f.Val = Offset(f.Val.(dwarf.Offset))
 		}
@@ -190,6 +200,10 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = int64(f.Val.(float64))
 		case int:
 			f.Val = int64(f.Val.(int))
+		case json.Number:
+			if val, err := f.Val.(json.Number).Int64(); err == nil {
+				f.Val = val
+			}
 		}
 	case "ClassExprLoc":
 		fallthrough
@@ -211,6 +225,10 @@ func (f *Field) fixValBasedOnClass() {
 					r = append(r, int(val))
 				case float64:
 					r = append(r, int(val))
+				case json.Number:
+					if i, err := val.Int64(); err == nil {
+						r = append(r, int(i))
+					}
 				}
 			}
 			f.Val = r
@@ -549,10 +567,16 @@ func NewDataFromUnstructured(iu interface{}) (*Data, error) {
 
 func NewDataFromJsonBuffer(buf []byte) (*Data, error) {
 	data := Data{}
-	err := json.Unmarshal(buf, &data)
+	// use json.Number, because float64 can't keep all 64bit values
+	decoder := json.NewDecoder(bytes.NewReader(buf))
+	decoder.UseNumber()
+	err := decoder.Decode(&data)
 	if err != nil {
 		return nil, err
 	}
+	if _, err = decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after the top-level value")
+	}
 	data.fixValBasedOnClass()
 	return &data, nil
 }
-- 
2.43.0


From a0c5af77d6412af59dc371121c370a76586ceff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 45/56] fix: empty block values of dwarf data survive
 conversion to json and yaml

---
 pkg/dwarfy/dwarf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index a47d046..c9234b3 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -211,14 +211,14 @@ func (f *Field) fixValBasedOnClass() {
 		switch f.Val.(type) {
 		case []byte:
 			bVals := f.Val.([]byte)
-			var r []int
+			r := []int{}
 			for _, bVal := range bVals {
 				r = append(r, int(bVal))
 			}
 			f.Val = r
 		case []interface{}: // produced by yaml and json module
 			iVals := f.Val.([]interface{})
-			var r []int
+			r := []int{}
 			for _, iVal := range iVals {
 				switch val := iVal.(type) {
 				case int:
-- 
2.43.0


From 202204a175a84673904c0832988943755bccd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 46/56] fix: kinds of DWARF 5 values survive conversion to json
 and yaml

---
 pkg/dwarfy/dwarf.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index c9234b3..cc2dce2 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -153,6 +153,13 @@ func (f *Field) fixValBasedOnClass() {
 	//    loclistptr        int64          ClassLocListPtr
 	//    macptr            int64          ClassMacPtr
 	//    rangelistptr      int64          ClassRangeListPtr
+	//    addrptr           int64          ClassAddrPtr
+	//    rnglistsptr       int64          ClassRngListsPtr
+	//    stroffsetsptr     int64          ClassStrOffsetsPtr
+	//    loclist           uint64         ClassLocList
+	//    rnglist           uint64         ClassRngList
+	//    alt reference     int64          ClassReferenceAlt
+	//    alt string        int64          ClassStringAlt
 	//
 	// For unrecognized or vendor-defined attributes, Class may be
 	// ClassUnknown.
@@ -161,6 +168,10 @@ func (f *Field) fixValBasedOnClass() {
 	case "ClassAddress":
 		fallthrough
 	case "ClassReferenceSig":
+		fallthrough
+	case "ClassLocList":
+		fallthrough
+	case "ClassRngList":
 		switch f.Val.(type) {
 		case float64:
 			f.Val = uint64(f.Val.(float64))
@@ -194,6 +205,16 @@ func (f *Field) fixValBasedOnClass() {
 		fallthrough
 	case "ClassRangeListPtr":
 		fallthrough
+	case "ClassAddrPtr":
+		fallthrough
+	case "ClassRngListsPtr":
+		fallthrough
+	case "ClassStrOffsetsPtr":
+		fallthrough
+	case "ClassReferenceAlt":
+		fallthrough
+	case "ClassStringAlt":
+		fallthrough
 	case "ClassUnknown":
 		switch f.Val.(type) {
 		case float64:
-- 
2.43.0


From 9af29ddd45b92fc550552fbfe3b28031eb703856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 47/56] fix: 16-byte constants of dwarf data survive conversion
 to json and yaml

---
 pkg/dwarfy/dwarf.go | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index cc2dce2..7427970 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -164,6 +164,34 @@ func (f *Field) fixValBasedOnClass() {
 	// For unrecognized or vendor-defined attributes, Class may be
 	// ClassUnknown.
 
+	// bytes: it's always so for ClassBlock and ClassExprLoc, but 16-byte
+	// ClassConstant is represented in the same way
+	switch f.Val.(type) {
+	case []byte:
+		bVals := f.Val.([]byte)
+		r := []int{}
+		for _, bVal := range bVals {
+			r = append(r, int(bVal))
+		}
+		f.Val = r
+	case []interface{}: // produced by yaml and json module
+		iVals := f.Val.([]interface{})
+		r := []int{}
+		for _, iVal := range iVals {
+			switch val := iVal.(type) {
+			case int:
+				r = append(r, int(val))
+			case float64:
+				r = append(r, int(val))
+			case json.Number:
+				if i, err := val.Int64(); err == nil {
+					r = append(r, int(i))
+				}
+			}
+		}
+		f.Val = r
+	}
+
 	switch f.Class {
 	case "ClassAddress":
 		fallthrough
@@ -226,34 +254,6 @@ func (f *Field) fixValBasedOnClass() {
 				f.Val = val
 			}
 		}
-	case "ClassExprLoc":
-		fallthrough
-	case "ClassBlock":
-		switch f.Val.(type) {
-		case []byte:
-			bVals := f.Val.([]byte)
-			r := []int{}
-			for _, bVal := range bVals {
-				r = append(r, int(bVal))
-			}
-			f.Val = r
-		case []interface{}: // produced by yaml and json module
-			iVals := f.Val.([]interface{})
-			r := []int{}
-			for _, iVal := range iVals {
-				switch val := iVal.(type) {
-				case int:
-					r = append(r, int(val))
-				case float64:
-					r = append(r, int(val))
-				case json.Number:
-					if i, err := val.Int64(); err == nil {
-						r = append(r, int(i))
-					}
-				}
-			}
-			f.Val = r
-		}
 	}
 }
 
-- 
2.43.0


From c9783dd83c63913b20e5085d825043c3a019a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 48/56] fix: working directory that can't be entered is an
 error and it's always left again

---
 pkg/module/gotemplate/gotemplate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index f1268aa..73784f5 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -170,7 +170,10 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		if err != nil {
 			return nil, fmt.Errorf("couldn't change workdir %v", err)
 		}
-		os.Chdir(workDir)
+		if err = os.Chdir(workDir); err != nil {
+			return nil, fmt.Errorf("couldn't change workdir %v", err)
+		}
+		defer os.Chdir(priorWorkDir)
 	}
 
 	// finally exec our module
@@ -179,8 +182,6 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		return nil, fmt.Errorf("template exec returned error: %v", err)
 	}
 
-	os.Chdir(priorWorkDir)
-
 	return out.Bytes(), nil
 }
 
-- 
2.43.0


From b19075f5f54a66a7e81c58795d032d397cec2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:28 +0000
Subject: [PATCH 49/56] fix: test that is also declared in another place runs
 once

---
 modules/metac-test-gen/templates/_build_requests.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/metac-test-gen/templates/_build_requests.tpl b/modules/metac-test-gen/templates/_build_requests.tpl
index 65914af..b6e38e5 100644
--- a/modules/metac-test-gen/templates/_build_requests.tpl
+++ b/modules/metac-test-gen/templates/_build_requests.tpl
@@ -14,7 +14,9 @@
 {{-               $reqName := (index $splitted_request 1) -}}
 {{-               if eq $reqType "test" -}}
 {{-                 if hasKey $resDict $reqType -}}
-{{-                   $_ := set $resDict $reqType (append (get $resDict $reqType) $reqName) -}}
+{{-                   if not (has $reqName (get $resDict $reqType)) -}}{{- /* there may be also extern declarations */ -}}
+{{-                     $_ := set $resDict $reqType (append (get $resDict $reqType) $reqName) -}}
+{{-                   end -}}
 {{-                 else -}}
 {{-                   $_ := set $resDict $reqType (list $reqName) -}}
 {{-                 end -}}
-- 
2.43.0


From 851bf1407c8c18594eac27f44811b8c48b618cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:31 +0000
Subject: [PATCH 50/56] fix: text of a long double complex number is not
 rounded to double

---
 src/value_base_type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 79cc60c..a09d0f1 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -390,10 +390,10 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
             if (metac_value_##_pseudoname_(p_val, &v) != 0) { \
                 return NULL; \
             } \
-            if (cimag(v) < 0.0) { \
-                return dsprintf( "%lf - I * %lf", creal(v), -1.0 * cimag(v)); \
+            if (cimagl(v) < 0.0) { \
+                return dsprintf( "%Lf - I * %Lf", creall(v), -1.0 * cimagl(v)); \
             } \
-            return dsprintf( "%lf + I * %lf", creal(v), cimag(v)); \
+            return dsprintf( "%Lf + I * %Lf", creall(v), cimagl(v)); \
         } \
     } while(0)
     _string_(float complex, float_complex);
-- 
2.43.0


From c5fd8a9a395069163f2bd78f9cec98e9490b3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:08 +0000
Subject: [PATCH 51/56] fix: responses to link and db requests carry the module
 name of the request

---
 modules/metac-reflect-gen/templates/_.tpl              |  2 +-
 modules/metac-reflect-gen/templates/_db_v0.tpl         |  8 ++++++--
 .../metac-reflect-gen/templates/_glob_responses.tpl    | 10 +++++-----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_.tpl b/modules/metac-reflect-gen/templates/_.tpl
index 47e9d3e..0d66d12 100644
--- a/modules/metac-reflect-gen/templates/_.tpl
+++ b/modules/metac-reflect-gen/templates/_.tpl
@@ -16,7 +16,7 @@
 {{-   include "metac_reflect_gen.actual_data" $metaDb -}}
 {{- /* the next are templates for generating response for METAC_<>_NAME */ -}}
 {{-   include "metac_reflect_gen.db_v0" (dict "metaDb" $metaDb "resDict" $resDict) -}}
-{{-   include "metac_reflect_gen.glob_responses" (dict "metaDb" $metaDb "resDict" $resDict "key" "gsym" "resNameMacro" "METAC_GSYM_NAME") -}}
+{{-   include "metac_reflect_gen.glob_responses" (dict "metaDb" $metaDb "resDict" $resDict "key" "gsym") -}}
 {{-   range $module,$_ := $moduleDict -}}
 {{-     include "metac_reflect_gen.entry_db" (dict "module" $module "metaDb" $metaDb "resDict" $resDict) -}}
 {{-   end -}}
diff --git a/modules/metac-reflect-gen/templates/_db_v0.tpl b/modules/metac-reflect-gen/templates/_db_v0.tpl
index a79e593..28b76a7 100644
--- a/modules/metac-reflect-gen/templates/_db_v0.tpl
+++ b/modules/metac-reflect-gen/templates/_db_v0.tpl
@@ -5,13 +5,16 @@
 {{-   if hasKey $resDict "db" }}
 {{-     $requests := get $resDict "db" -}}
 {{-     $dbName := get (index $requests 0) "reqName" -}}
+{{-     $modules := dict -}}
 {{-     range $_,$r := $requests -}}
+{{-       $_ := set $modules (get $r "module") "" -}}
 {{-       if ne $dbName (get $r "reqName") -}}
 {{-         fail "got different db requests - not sure how to make" -}}
 {{-       end -}}
-{{-     end }}
+{{-     end -}}
+{{-     range $module,$_ := $modules }}
 /* db */
-struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {
+struct metac_db *METAC_MODULE_RESPONSE({{ $module }}, db, {{ $dbName }}) = (struct metac_db[]) {
     {
         .version = 0,
         .db_v0 = {
@@ -28,6 +31,7 @@ struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {
         },
     },
 };
+{{-     end -}}
 {{-   end -}}
 {{- end -}}
 {{- /* helper */ -}}
diff --git a/modules/metac-reflect-gen/templates/_glob_responses.tpl b/modules/metac-reflect-gen/templates/_glob_responses.tpl
index f4e6239..9bc082b 100644
--- a/modules/metac-reflect-gen/templates/_glob_responses.tpl
+++ b/modules/metac-reflect-gen/templates/_glob_responses.tpl
@@ -3,17 +3,16 @@
 {{-   $metaDb := index . "metaDb" -}}
 {{-   $resDict := index . "resDict" -}}
 {{-   $key := index . "key" -}}
-{{-   $resNameMacro := index . "resNameMacro" -}}
 {{-   if hasKey $resDict $key -}}
 {{-     $requests := get $resDict $key -}}
 {{-     range $_,$r := $requests -}}
 {{-       $cu := index $metaDb.CompileUnits (get $r "cu") -}}
-{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "module" (get $r "module") "key" $key "resName" (get $r "reqName")) -}}
 {{-       if eq $out "" -}}
 {{- /* clang doesn't create declarations, so need to try all cu*/ -}}
 {{-         range $_,$cu := $metaDb.CompileUnits -}}
 {{-           if eq $out "" -}}
-{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "module" (get $r "module") "key" $key "resName" (get $r "reqName")) -}}
 {{-           end -}}
 {{-         end -}}
 {{-       end -}}
@@ -25,7 +24,8 @@
 {{- define "metac_reflect_gen.glob_responses_hierarchy" -}}
 {{-   $metaDb := index . "metaDb" -}}
 {{-   $hierarchy := index . "hierarchy" -}}
-{{-   $resNameMacro := index . "resNameMacro" -}}
+{{-   $module := index . "module" -}}
+{{-   $key := index . "key" -}}
 {{-   $resName := index . "resName" -}}
 {{- /* prefer definition if the hierarchy contains also declaration(s) with the same name */ -}}
 {{-   $id := "" -}}
@@ -58,6 +58,6 @@
 {{-     end -}}
 {{-   end -}}
 {{-   if ne $id "" }}
-struct metac_entry *{{ $resNameMacro }}({{ $resName }}) = &{{ $id }};
+struct metac_entry *METAC_MODULE_RESPONSE({{ $module }}, {{ $key }}, {{ $resName }}) = &{{ $id }};
 {{-   end -}}
 {{- end -}}
-- 
2.43.0


From 0f15f1363cc53c4267dd0226bfe6cd9025db6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:08 +0000
Subject: [PATCH 52/56] fix: a link to an extern object never resolves to
 another unit's static object

---
 modules/metac-reflect-gen/templates/_glob_responses.tpl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_glob_responses.tpl b/modules/metac-reflect-gen/templates/_glob_responses.tpl
index 9bc082b..2484137 100644
--- a/modules/metac-reflect-gen/templates/_glob_responses.tpl
+++ b/modules/metac-reflect-gen/templates/_glob_responses.tpl
@@ -7,12 +7,12 @@
 {{-     $requests := get $resDict $key -}}
 {{-     range $_,$r := $requests -}}
 {{-       $cu := index $metaDb.CompileUnits (get $r "cu") -}}
-{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "module" (get $r "module") "key" $key "resName" (get $r "reqName")) -}}
+{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "module" (get $r "module") "key" $key "resName" (get $r "reqName") "externalOnly" false) -}}
 {{-       if eq $out "" -}}
-{{- /* clang doesn't create declarations, so need to try all cu*/ -}}
+{{- /* clang doesn't create declarations, so need to try all cu (other cu's static objects aren't visible) */ -}}
 {{-         range $_,$cu := $metaDb.CompileUnits -}}
 {{-           if eq $out "" -}}
-{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "module" (get $r "module") "key" $key "resName" (get $r "reqName")) -}}
+{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "module" (get $r "module") "key" $key "resName" (get $r "reqName") "externalOnly" true) -}}
 {{-           end -}}
 {{-         end -}}
 {{-       end -}}
@@ -27,6 +27,7 @@
 {{-   $module := index . "module" -}}
 {{-   $key := index . "key" -}}
 {{-   $resName := index . "resName" -}}
+{{-   $externalOnly := index . "externalOnly" -}}
 {{- /* prefer definition if the hierarchy contains also declaration(s) with the same name */ -}}
 {{-   $id := "" -}}
 {{-   $declaration := true -}}
@@ -40,7 +41,7 @@
 {{-         $var = index $metaDb.Subprograms $h.Id -}}
 {{-       end -}}
 {{-       with $var -}}
-{{-         if eq (toJson $resName) (toJson .Name) -}}
+{{-         if and (eq (toJson $resName) (toJson .Name)) (or (not $externalOnly) (eq (toJson .External) "true")) -}}
 {{-           $var_declaration := eq (toJson .Declaration) "true" -}}
 {{-           if or (eq $id "") (and $declaration (not $var_declaration)) -}}
 {{-             $id = toString $h.Id -}}
-- 
2.43.0


From 04503129076ee26dfdd2ebdfe6b02cdfaf99e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:59 +0000
Subject: [PATCH 53/56] fix: qualifiers are reported also when the final type
 is void or '...'

---
 src/entry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entry.c b/src/entry.c
index 0e3afae..e954b2e 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -166,6 +166,9 @@ metac_entry_t * metac_entry_final_entry(metac_entry_t *p_entry, metac_quals_t *
     do {
         if (p_entry == NULL) {
             /* void */
+            if (p_quals != NULL) {
+                p_quals->flags = quals.flags;
+            }
             return p_entry;
         }
 
@@ -178,6 +181,9 @@ metac_entry_t * metac_entry_final_entry(metac_entry_t *p_entry, metac_quals_t *
             break;
         case METAC_KND_func_parameter:
             if (p_entry->func_parameter_info.unspecified_parameters != 0) {
+                if (p_quals != NULL) {
+                    p_quals->flags = quals.flags;
+                }
                 return p_entry; // this is the final entry then ??? maybe return NULL
             }
             p_entry = p_entry->func_parameter_info.type;
-- 
2.43.0


From 246370d53f24d30fc4c38ca2584fadc832df7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:59 +0000
Subject: [PATCH 54/56] fix: a function returning a typedef of void has no
 result

---
 src/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.c b/src/entry.c
index e954b2e..eebb341 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -624,7 +624,7 @@ metac_entry_t * metac_entry_by_parameter_ids(metac_entry_t * p_entry, metac_flag
 metac_flag_t metac_entry_has_result(metac_entry_t * p_entry) {
     metac_entry_t * p_final_entry = _entry_with_paremeter_info(p_entry);
     _check_(p_final_entry == NULL, 0);
-    return p_final_entry->subprogram_info.type != NULL;
+    return metac_entry_final_entry(p_final_entry->subprogram_info.type, NULL) != NULL;
 }
 
 metac_entry_t * metac_entry_result_type(metac_entry_t * p_entry) {
-- 
2.43.0


From a2da262fcb7f8677200fe86885b2d8b115d3a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:59 +0000
Subject: [PATCH 55/56] fix: location of a member that is not a bit-field is
 reported

---
 src/entry.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entry.c b/src/entry.c
index eebb341..a171444 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -456,6 +456,10 @@ int metac_entry_member_bitfield_offsets(metac_entry_t *p_memb_entry,
         // out
         *p_byte_offset = _data_bit_offset >> 3;
         *p_bit_offset = _data_bit_offset & 0x7;
+    } else { /* not a bit-field */
+        *p_byte_offset = p_memb_entry->member_info.byte_offset;
+        *p_bit_offset = 0;
+        *p_bit_size = 0;
     }
 
     return 0;
-- 
2.43.0


From b8efb171aa35fe92a7af352f0975a13474d20b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:51 +0000
Subject: [PATCH 56/56] fix: metac_value_num refuses numbers that do not fit
 metac_num_t

A sibling of 2^32+1 was read as 1, so that a count or a selector of a wider type silently chose a wrong extent, member or type.
---
 src/value_base_type.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index a09d0f1..5151954 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -230,7 +230,11 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
         if ( metac_value_is_##_pseudoname_(p_val) != 0) { \
             _type_ v; \
             if (metac_value_##_pseudoname_(p_val, &v) == 0) { \
-                *p_var = (metac_num_t)v; \
+                metac_num_t num = (metac_num_t)v; \
+                if ((_type_)num != v || (num < 0) != (v < 0)) { \
+                    return -(ERANGE); \
+                } \
+                *p_var = num; \
                 return 0;\
             } \
         } \
@@ -251,7 +255,11 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
     if (metac_value_is_enumeration(p_val) != 0) {
         metac_const_value_t v;
         if (metac_value_enumeration(p_val, &v) == 0) {
-            *p_var = (metac_num_t)v;
+            metac_num_t num = (metac_num_t)v;
+            if (num != v) {
+                return -(ERANGE);
+            }
+            *p_var = num;
             return 0;
         }
     }
-- 
2.43.0

