! C entry points for every procedure of the Fortran bindings of the legacy interface.
module vf_legacy
    use, intrinsic :: iso_c_binding
    use odc_c_binding
    implicit none

contains

    subroutine vfl_start() bind(C)
        call odb_start()
    end subroutine

    function vfl_read_new(a, b) bind(C) result(res)
        character(kind=c_char), dimension(*) :: a
        integer(c_int) :: b
        type(c_ptr) :: res
        res = odb_read_new(a, b)
    end function

    function vfl_read_delete(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_read_delete(a)
    end function

    function vfl_read_iterator_new(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        character(kind=c_char), dimension(*) :: b
        integer(c_int) :: c
        type(c_ptr) :: res
        res = odb_read_iterator_new(a, b, c)
    end function

    function vfl_read_iterator_delete(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_read_iterator_delete(a)
    end function

    function vfl_read_get_no_of_columns(a, b) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: b
        integer(c_int) :: res
        res = odb_read_get_no_of_columns(a, b)
    end function

    function vfl_read_get_column_type(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_read_get_column_type(a, b, c)
    end function

    function vfl_read_get_column_name(a, b, c, d) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        type(c_ptr) :: c
        integer(c_int) :: d
        integer(c_int) :: res
        res = odb_read_get_column_name(a, b, c, d)
    end function

    function vfl_read_get_bitfield(a, b, c, d, e, f) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        type(c_ptr) :: c
        type(c_ptr) :: d
        integer(c_int) :: e
        integer(c_int) :: f
        integer(c_int) :: res
        res = odb_read_get_bitfield(a, b, c, d, e, f)
    end function

    function vfl_read_get_next_row(a, b, c, d) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        real(c_double), dimension(*) :: c
        integer(c_int) :: d
        integer(c_int) :: res
        res = odb_read_get_next_row(a, b, c, d)
    end function

    function vfl_read_get_missing_value(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        real(c_double) :: c
        integer(c_int) :: res
        res = odb_read_get_missing_value(a, b, c)
    end function

    function vfl_read_get_row_buffer_size_doubles(a, b) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: b
        integer(c_int) :: res
        res = odb_read_get_row_buffer_size_doubles(a, b)
    end function

    function vfl_read_get_column_offset(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_read_get_column_offset(a, b, c)
    end function

    function vfl_read_get_column_size_doubles(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_read_get_column_size_doubles(a, b, c)
    end function

    function vfl_select_new(a, b) bind(C) result(res)
        character(kind=c_char), dimension(*) :: a
        integer(c_int) :: b
        type(c_ptr) :: res
        res = odb_select_new(a, b)
    end function

    function vfl_select_delete(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_select_delete(a)
    end function

    function vfl_select_iterator_new(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        character(kind=c_char), dimension(*) :: b
        integer(c_int) :: c
        type(c_ptr) :: res
        res = odb_select_iterator_new(a, b, c)
    end function

    function vfl_select_iterator_new_from_file(a, b, c, d) bind(C) result(res)
        type(c_ptr), value :: a
        character(kind=c_char), dimension(*) :: b
        character(kind=c_char), dimension(*) :: c
        integer(c_int) :: d
        type(c_ptr) :: res
        res = odb_select_iterator_new_from_file(a, b, c, d)
    end function

    function vfl_select_iterator_delete(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_select_iterator_delete(a)
    end function

    function vfl_select_get_no_of_columns(a, b) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: b
        integer(c_int) :: res
        res = odb_select_get_no_of_columns(a, b)
    end function

    function vfl_select_get_column_type(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_select_get_column_type(a, b, c)
    end function

    function vfl_select_get_column_name(a, b, c, d) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        type(c_ptr) :: c
        integer(c_int) :: d
        integer(c_int) :: res
        res = odb_select_get_column_name(a, b, c, d)
    end function

    function vfl_select_get_bitfield(a, b, c, d, e, f) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        type(c_ptr) :: c
        type(c_ptr) :: d
        integer(c_int) :: e
        integer(c_int) :: f
        integer(c_int) :: res
        res = odb_select_get_bitfield(a, b, c, d, e, f)
    end function

    function vfl_select_get_next_row(a, b, c, d) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        real(c_double), dimension(*) :: c
        integer(c_int) :: d
        integer(c_int) :: res
        res = odb_select_get_next_row(a, b, c, d)
    end function

    function vfl_select_get_missing_value(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        real(c_double) :: c
        integer(c_int) :: res
        res = odb_select_get_missing_value(a, b, c)
    end function

    function vfl_select_get_row_buffer_size_doubles(a, b) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: b
        integer(c_int) :: res
        res = odb_select_get_row_buffer_size_doubles(a, b)
    end function

    function vfl_select_get_column_offset(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_select_get_column_offset(a, b, c)
    end function

    function vfl_select_get_column_size_doubles(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_select_get_column_size_doubles(a, b, c)
    end function

    function vfl_write_new(a, b) bind(C) result(res)
        character(kind=c_char), dimension(*) :: a
        integer(c_int) :: b
        type(c_ptr) :: res
        res = odb_write_new(a, b)
    end function

    function vfl_write_delete(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_write_delete(a)
    end function

    function vfl_write_iterator_new(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        character(kind=c_char), dimension(*) :: b
        integer(c_int) :: c
        type(c_ptr) :: res
        res = odb_write_iterator_new(a, b, c)
    end function

    function vfl_append_iterator_new(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        character(kind=c_char), dimension(*) :: b
        integer(c_int) :: c
        type(c_ptr) :: res
        res = odb_append_iterator_new(a, b, c)
    end function

    function vfl_write_iterator_delete(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_write_iterator_delete(a)
    end function

    function vfl_write_set_no_of_columns(a, b) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: res
        res = odb_write_set_no_of_columns(a, b)
    end function

    function vfl_write_set_column(a, b, c, d) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int), value :: c
        character(kind=c_char), dimension(*) :: d
        integer(c_int) :: res
        res = odb_write_set_column(a, b, c, d)
    end function

    function vfl_write_set_bitfield(a, b, c, d, e, f) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int), value :: c
        character(kind=c_char), dimension(*) :: d
        character(kind=c_char), dimension(*) :: e
        character(kind=c_char), dimension(*) :: f
        integer(c_int) :: res
        res = odb_write_set_bitfield(a, b, c, d, e, f)
    end function

    function vfl_write_set_missing_value(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        real(c_double), value :: c
        integer(c_int) :: res
        res = odb_write_set_missing_value(a, b, c)
    end function

    function vfl_write_set_column_size_doubles(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int), value :: c
        integer(c_int) :: res
        res = odb_write_set_column_size_doubles(a, b, c)
    end function

    function vfl_write_get_row_buffer_size_doubles(a, b) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: b
        integer(c_int) :: res
        res = odb_write_get_row_buffer_size_doubles(a, b)
    end function

    function vfl_write_get_column_offset(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int), value :: b
        integer(c_int) :: c
        integer(c_int) :: res
        res = odb_write_get_column_offset(a, b, c)
    end function

    function vfl_write_set_next_row(a, b, c) bind(C) result(res)
        type(c_ptr), value :: a
        real(c_double), dimension(*) :: b
        integer(c_int), value :: c
        integer(c_int) :: res
        res = odb_write_set_next_row(a, b, c)
    end function

    function vfl_write_header(a) bind(C) result(res)
        type(c_ptr), value :: a
        integer(c_int) :: res
        res = odb_write_header(a)
    end function

    function vfl_count(a) bind(C) result(res)
        character(kind=c_char), dimension(*) :: a
        real(c_double) :: res
        res = odb_count(a)
    end function

end module
