// The legacy interface, called from C or through its Fortran bindings.  Column offsets of the latter start at one.
#pragma once

#include "odc/odccapi.h"

extern "C" {
void vfl_start();
void* vfl_read_new(const char*, int*);
int vfl_read_delete(void*);
void* vfl_read_iterator_new(void*, const char*, int*);
int vfl_read_iterator_delete(void*);
int vfl_read_get_no_of_columns(void*, int*);
int vfl_read_get_column_type(void*, int, int*);
int vfl_read_get_column_name(void*, int, char**, int*);
int vfl_read_get_bitfield(void*, int, char**, char**, int*, int*);
int vfl_read_get_next_row(void*, int, double*, int*);
int vfl_read_get_missing_value(void*, int, double*);
int vfl_read_get_row_buffer_size_doubles(void*, int*);
int vfl_read_get_column_offset(void*, int, int*);
int vfl_read_get_column_size_doubles(void*, int, int*);
void* vfl_select_new(const char*, int*);
int vfl_select_delete(void*);
void* vfl_select_iterator_new(void*, const char*, int*);
void* vfl_select_iterator_new_from_file(void*, const char*, const char*, int*);
int vfl_select_iterator_delete(void*);
int vfl_select_get_no_of_columns(void*, int*);
int vfl_select_get_column_type(void*, int, int*);
int vfl_select_get_column_name(void*, int, char**, int*);
int vfl_select_get_bitfield(void*, int, char**, char**, int*, int*);
int vfl_select_get_next_row(void*, int, double*, int*);
int vfl_select_get_missing_value(void*, int, double*);
int vfl_select_get_row_buffer_size_doubles(void*, int*);
int vfl_select_get_column_offset(void*, int, int*);
int vfl_select_get_column_size_doubles(void*, int, int*);
void* vfl_write_new(const char*, int*);
int vfl_write_delete(void*);
void* vfl_write_iterator_new(void*, const char*, int*);
void* vfl_append_iterator_new(void*, const char*, int*);
int vfl_write_iterator_delete(void*);
int vfl_write_set_no_of_columns(void*, int);
int vfl_write_set_column(void*, int, int, const char*);
int vfl_write_set_bitfield(void*, int, int, const char*, const char*, const char*);
int vfl_write_set_missing_value(void*, int, double);
int vfl_write_set_column_size_doubles(void*, int, int);
int vfl_write_get_row_buffer_size_doubles(void*, int*);
int vfl_write_get_column_offset(void*, int, int*);
int vfl_write_set_next_row(void*, double*, int);
int vfl_write_header(void*);
double vfl_count(const char*);
}

namespace legacy {

inline bool fortran = false;

inline void* odb_read_create(const char* a, int* b) {
    return fortran ? vfl_read_new(a, b) : ::odb_read_create(a, b);
}
inline int odb_read_destroy(void* a) {
    return fortran ? vfl_read_delete(a) : ::odb_read_destroy(a);
}
inline void* odb_create_read_iterator(void* a, const char* b, int* c) {
    return fortran ? vfl_read_iterator_new(a, b, c) : ::odb_create_read_iterator(a, b, c);
}
inline int odb_read_iterator_destroy(void* a) {
    return fortran ? vfl_read_iterator_delete(a) : ::odb_read_iterator_destroy(a);
}
inline int odb_read_iterator_get_no_of_columns(void* a, int* b) {
    return fortran ? vfl_read_get_no_of_columns(a, b) : ::odb_read_iterator_get_no_of_columns(a, b);
}
inline int odb_read_iterator_get_column_type(void* a, int b, int* c) {
    return fortran ? vfl_read_get_column_type(a, b, c) : ::odb_read_iterator_get_column_type(a, b, c);
}
inline int odb_read_iterator_get_column_name(void* a, int b, char** c, int* d) {
    return fortran ? vfl_read_get_column_name(a, b, c, d) : ::odb_read_iterator_get_column_name(a, b, c, d);
}
inline int odb_read_iterator_get_bitfield(void* a, int b, char** c, char** d, int* e, int* f) {
    return fortran ? vfl_read_get_bitfield(a, b, c, d, e, f) : ::odb_read_iterator_get_bitfield(a, b, c, d, e, f);
}
inline int odb_read_iterator_get_next_row(void* a, int b, double* c, int* d) {
    return fortran ? vfl_read_get_next_row(a, b, c, d) : ::odb_read_iterator_get_next_row(a, b, c, d);
}
inline int odb_read_iterator_get_missing_value(void* a, int b, double* c) {
    return fortran ? vfl_read_get_missing_value(a, b, c) : ::odb_read_iterator_get_missing_value(a, b, c);
}
inline int odb_read_iterator_get_row_buffer_size_doubles(void* a, int* b) {
    return fortran ? vfl_read_get_row_buffer_size_doubles(a, b) : ::odb_read_iterator_get_row_buffer_size_doubles(a, b);
}
inline int odb_read_iterator_get_column_offset(void* a, int b, int* c) {
    if (!fortran)
        return ::odb_read_iterator_get_column_offset(a, b, c);
    int rc = vfl_read_get_column_offset(a, b, c);
    --*c;
    return rc;
}
inline int odb_read_iterator_get_column_size_doubles(void* a, int b, int* c) {
    return fortran ? vfl_read_get_column_size_doubles(a, b, c) : ::odb_read_iterator_get_column_size_doubles(a, b, c);
}
inline void* odb_select_create(const char* a, int* b) {
    return fortran ? vfl_select_new(a, b) : ::odb_select_create(a, b);
}
inline int odb_select_destroy(void* a) {
    return fortran ? vfl_select_delete(a) : ::odb_select_destroy(a);
}
inline void* odb_create_select_iterator(void* a, const char* b, int* c) {
    return fortran ? vfl_select_iterator_new(a, b, c) : ::odb_create_select_iterator(a, b, c);
}
inline void* odb_create_select_iterator_from_file(void* a, const char* b, const char* c, int* d) {
    return fortran ? vfl_select_iterator_new_from_file(a, b, c, d) : ::odb_create_select_iterator_from_file(a, b, c, d);
}
inline int odb_select_iterator_destroy(void* a) {
    return fortran ? vfl_select_iterator_delete(a) : ::odb_select_iterator_destroy(a);
}
inline int odb_select_iterator_get_no_of_columns(void* a, int* b) {
    return fortran ? vfl_select_get_no_of_columns(a, b) : ::odb_select_iterator_get_no_of_columns(a, b);
}
inline int odb_select_iterator_get_column_type(void* a, int b, int* c) {
    return fortran ? vfl_select_get_column_type(a, b, c) : ::odb_select_iterator_get_column_type(a, b, c);
}
inline int odb_select_iterator_get_column_name(void* a, int b, char** c, int* d) {
    return fortran ? vfl_select_get_column_name(a, b, c, d) : ::odb_select_iterator_get_column_name(a, b, c, d);
}
inline int odb_select_iterator_get_bitfield(void* a, int b, char** c, char** d, int* e, int* f) {
    return fortran ? vfl_select_get_bitfield(a, b, c, d, e, f) : ::odb_select_iterator_get_bitfield(a, b, c, d, e, f);
}
inline int odb_select_iterator_get_next_row(void* a, int b, double* c, int* d) {
    return fortran ? vfl_select_get_next_row(a, b, c, d) : ::odb_select_iterator_get_next_row(a, b, c, d);
}
inline int odb_select_iterator_get_missing_value(void* a, int b, double* c) {
    return fortran ? vfl_select_get_missing_value(a, b, c) : ::odb_select_iterator_get_missing_value(a, b, c);
}
inline int odb_select_iterator_get_row_buffer_size_doubles(void* a, int* b) {
    return fortran ? vfl_select_get_row_buffer_size_doubles(a, b) : ::odb_select_iterator_get_row_buffer_size_doubles(a, b);
}
inline int odb_select_iterator_get_column_offset(void* a, int b, int* c) {
    if (!fortran)
        return ::odb_select_iterator_get_column_offset(a, b, c);
    int rc = vfl_select_get_column_offset(a, b, c);
    --*c;
    return rc;
}
inline int odb_select_iterator_get_column_size_doubles(void* a, int b, int* c) {
    return fortran ? vfl_select_get_column_size_doubles(a, b, c) : ::odb_select_iterator_get_column_size_doubles(a, b, c);
}
inline void* odb_writer_create(const char* a, int* b) {
    return fortran ? vfl_write_new(a, b) : ::odb_writer_create(a, b);
}
inline int odb_writer_destroy(void* a) {
    return fortran ? vfl_write_delete(a) : ::odb_writer_destroy(a);
}
inline void* odb_create_write_iterator(void* a, const char* b, int* c) {
    return fortran ? vfl_write_iterator_new(a, b, c) : ::odb_create_write_iterator(a, b, c);
}
inline void* odb_create_append_iterator(void* a, const char* b, int* c) {
    return fortran ? vfl_append_iterator_new(a, b, c) : ::odb_create_append_iterator(a, b, c);
}
inline int odb_write_iterator_destroy(void* a) {
    return fortran ? vfl_write_iterator_delete(a) : ::odb_write_iterator_destroy(a);
}
inline int odb_write_iterator_set_no_of_columns(void* a, int b) {
    return fortran ? vfl_write_set_no_of_columns(a, b) : ::odb_write_iterator_set_no_of_columns(a, b);
}
inline int odb_write_iterator_set_column(void* a, int b, int c, const char* d) {
    return fortran ? vfl_write_set_column(a, b, c, d) : ::odb_write_iterator_set_column(a, b, c, d);
}
inline int odb_write_iterator_set_bitfield(void* a, int b, int c, const char* d, const char* e, const char* f) {
    return fortran ? vfl_write_set_bitfield(a, b, c, d, e, f) : ::odb_write_iterator_set_bitfield(a, b, c, d, e, f);
}
inline int odb_write_iterator_set_missing_value(void* a, int b, double c) {
    return fortran ? vfl_write_set_missing_value(a, b, c) : ::odb_write_iterator_set_missing_value(a, b, c);
}
inline int odb_write_iterator_set_column_size_doubles(void* a, int b, int c) {
    return fortran ? vfl_write_set_column_size_doubles(a, b, c) : ::odb_write_iterator_set_column_size_doubles(a, b, c);
}
inline int odb_write_iterator_get_row_buffer_size_doubles(void* a, int* b) {
    return fortran ? vfl_write_get_row_buffer_size_doubles(a, b) : ::odb_write_iterator_get_row_buffer_size_doubles(a, b);
}
inline int odb_write_iterator_get_column_offset(void* a, int b, int* c) {
    if (!fortran)
        return ::odb_write_iterator_get_column_offset(a, b, c);
    int rc = vfl_write_get_column_offset(a, b, c);
    --*c;
    return rc;
}
inline int odb_write_iterator_set_next_row(void* a, double* b, int c) {
    return fortran ? vfl_write_set_next_row(a, b, c) : ::odb_write_iterator_set_next_row(a, b, c);
}
inline int odb_write_iterator_write_header(void* a) {
    return fortran ? vfl_write_header(a) : ::odb_write_iterator_write_header(a);
}
inline double odb_count(const char* a) {
    return fortran ? vfl_count(a) : ::odb_count(a);
}

}  // namespace legacy
