! C entry points for every type-bound procedure of the Fortran interface.
! Handles live in arrays; optional arguments are absent where the pointer given for them is null.
module vf_driver
    use, intrinsic :: iso_c_binding
    use odc
    implicit none

    integer, parameter :: nmax = 256
    integer, parameter :: dp = selected_real_kind(15, 307)
    integer, parameter :: int64 = selected_int_kind(15)
    type(odc_reader), save :: readers(nmax)
    type(odc_frame), save :: frames(nmax)
    type(odc_decoder), save :: decoders(nmax)
    type(odc_encoder), save :: encoders(nmax)

    integer(int64), save :: handled_context = 0
    integer, save :: handled_error = 0
    integer, save :: handled_count = 0

contains

    ! n bytes at p as a string
    function str(p, n) result(s)
        type(c_ptr), value :: p
        integer(c_int), value :: n
        character(n) :: s
        character(c_char), pointer :: a(:)
        integer :: i
        call c_f_pointer(p, a, [n])
        do i = 1, n
            s(i:i) = a(i)
        end do
    end function

    ! a string into a buffer of n bytes
    subroutine give(s, p, n)
        character(*), intent(in) :: s
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        character(c_char), pointer :: a(:)
        integer :: i
        n = len(s)
        call c_f_pointer(p, a, [4096])
        do i = 1, min(n, 4096)
            a(i) = s(i:i)
        end do
    end subroutine

    subroutine opt_int(p, x)
        type(c_ptr), value :: p
        integer(c_int), pointer, intent(out) :: x
        nullify(x)
        if (c_associated(p)) call c_f_pointer(p, x)
    end subroutine

    subroutine opt_long(p, x)
        type(c_ptr), value :: p
        integer(c_long), pointer, intent(out) :: x
        nullify(x)
        if (c_associated(p)) call c_f_pointer(p, x)
    end subroutine

    ! logical arguments come as integers
    subroutine opt_logical(p, x)
        type(c_ptr), value :: p
        logical, pointer, intent(out) :: x
        integer(c_int), pointer :: v
        nullify(x)
        if (c_associated(p)) then
            call c_f_pointer(p, v)
            allocate(x)
            x = v /= 0
        end if
    end subroutine

    ! ------------------------------------------------------------------------------------------ settings

    function f_version(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        character(:), allocatable :: s
        n = -1
        err = odc_version(s)
        if (allocated(s)) call give(s, p, n)
    end function

    function f_vcs_version(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        character(:), allocatable :: s
        n = -1
        err = odc_vcs_version(s)
        if (allocated(s)) call give(s, p, n)
    end function

    function f_column_type_name(t, p, n) result(err) bind(c)
        integer(c_int), value :: t
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        character(:), allocatable :: s
        n = -1
        err = odc_column_type_name(t, s)
        if (allocated(s)) call give(s, p, n)
    end function

    function f_column_type_count(count) result(err) bind(c)
        integer(c_int), intent(out) :: count
        integer(c_int) :: err
        err = odc_column_type_count(count)
    end function

    subroutine f_error_string(e, p, n) bind(c)
        integer(c_int), value :: e
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        call give(odc_error_string(e), p, n)
    end subroutine

    function f_missing_integer(v) result(err) bind(c)
        integer(c_long), intent(out) :: v
        integer(c_int) :: err
        err = odc_missing_integer(v)
    end function

    function f_missing_double(v) result(err) bind(c)
        real(c_double), intent(out) :: v
        integer(c_int) :: err
        err = odc_missing_double(v)
    end function

    function f_set_missing_integer(v) result(err) bind(c)
        integer(c_long), value :: v
        integer(c_int) :: err
        err = odc_set_missing_integer(v)
    end function

    function f_set_missing_double(v) result(err) bind(c)
        real(c_double), value :: v
        integer(c_int) :: err
        err = odc_set_missing_double(v)
    end function

    function f_integer_behaviour(v) result(err) bind(c)
        integer(c_int), value :: v
        integer(c_int) :: err
        err = odc_integer_behaviour(v)
    end function

    subroutine handler(ctx, err)
        integer(int64), intent(in) :: ctx
        integer, intent(in) :: err
        handled_context = ctx
        handled_error = err
        handled_count = handled_count + 1
    end subroutine

    function f_set_failure_handler(ctx) result(err) bind(c)
        integer(c_long), value :: ctx
        integer(c_int) :: err
        integer(int64) :: c
        c = ctx
        handled_count = 0
        err = odc_set_failure_handler(handler, c)
    end function

    subroutine f_handled(count, ctx, e) bind(c)
        integer(c_int), intent(out) :: count, e
        integer(c_long), intent(out) :: ctx
        count = handled_count
        ctx = handled_context
        e = handled_error
    end subroutine

    ! ------------------------------------------------------------------------------------------ reader

    function f_reader_open(i, path, n) result(err) bind(c)
        integer(c_int), value :: i, n
        type(c_ptr), value :: path
        integer(c_int) :: err
        err = readers(i)%open_path(str(path, n))
    end function

    function f_reader_close(i) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int) :: err
        err = readers(i)%close()
    end function

    ! ------------------------------------------------------------------------------------------ frame

    function f_frame_initialise(i, r) result(err) bind(c)
        integer(c_int), value :: i, r
        integer(c_int) :: err
        err = frames(i)%initialise(readers(r))
    end function

    function f_frame_free(i) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int) :: err
        err = frames(i)%free()
    end function

    function f_frame_copy(i, j) result(err) bind(c)
        integer(c_int), value :: i, j
        integer(c_int) :: err
        err = frames(i)%copy(frames(j))
    end function

    function f_frame_next(i, aggregated, maximum_rows) result(err) bind(c)
        integer(c_int), value :: i
        type(c_ptr), value :: aggregated, maximum_rows
        integer(c_int) :: err
        logical, pointer :: a
        integer(c_long), pointer :: m
        call opt_logical(aggregated, a)
        call opt_long(maximum_rows, m)
        err = frames(i)%next(a, m)
        if (associated(a)) deallocate(a)
    end function

    function f_frame_row_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_long), intent(out) :: n
        integer(c_int) :: err
        err = frames(i)%row_count(n)
    end function

    function f_frame_column_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        err = frames(i)%column_count(n)
    end function

    function f_frame_column_attributes(i, col, name, n, t, es, esd, bc) result(err) bind(c)
        integer(c_int), value :: i, col
        type(c_ptr), value :: name, t, es, esd, bc
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        integer(c_int), pointer :: pt, pes, pesd, pbc
        character(:), allocatable :: s
        n = -1
        call opt_int(t, pt)
        call opt_int(es, pes)
        call opt_int(esd, pesd)
        call opt_int(bc, pbc)
        if (c_associated(name)) then
            err = frames(i)%column_attributes(col, s, pt, pes, pesd, pbc)
            if (allocated(s)) call give(s, name, n)
        else
            err = frames(i)%column_attributes(col, type=pt, element_size=pes, element_size_doubles=pesd, bitfield_count=pbc)
        end if
    end function

    function f_frame_bitfield_attributes(i, col, field, name, n, offset, size) result(err) bind(c)
        integer(c_int), value :: i, col, field
        type(c_ptr), value :: name, offset, size
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        integer(c_int), pointer :: po, ps
        character(:), allocatable :: s
        n = -1
        call opt_int(offset, po)
        call opt_int(size, ps)
        if (c_associated(name)) then
            err = frames(i)%bitfield_attributes(col, field, s, po, ps)
            if (allocated(s)) call give(s, name, n)
        else
            err = frames(i)%bitfield_attributes(col, field, offset=po, size=ps)
        end if
    end function

    function f_frame_properties_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        err = frames(i)%properties_count(n)
    end function

    function f_frame_property_idx(i, idx, key, nkey, val, nval) result(err) bind(c)
        integer(c_int), value :: i, idx
        type(c_ptr), value :: key, val
        integer(c_int), intent(out) :: nkey, nval
        integer(c_int) :: err
        character(:), allocatable :: k, v
        nkey = -1
        nval = -1
        err = frames(i)%property_idx(idx, k, v)
        if (allocated(k)) call give(k, key, nkey)
        if (allocated(v)) call give(v, val, nval)
    end function

    function f_frame_property(i, key, n, val, nval, exists) result(err) bind(c)
        integer(c_int), value :: i, n
        type(c_ptr), value :: key, val, exists
        integer(c_int), intent(out) :: nval
        integer(c_int) :: err
        integer(c_int), pointer :: e
        logical :: l
        character(:), allocatable :: v
        nval = -1
        call opt_int(exists, e)
        ! the caller presets the wrong answer: it must be replaced
        l = .false.
        if (associated(e)) l = modulo(e, 2) == 1
        if (c_associated(val)) then
            if (associated(e)) then
                err = frames(i)%property(str(key, n), v, l)
                e = merge(1, 0, l)
            else
                err = frames(i)%property(str(key, n), v)
            end if
            if (allocated(v)) call give(v, val, nval)
        else
            err = frames(i)%property(str(key, n), exists=l)
            if (associated(e)) e = merge(1, 0, l)
        end if
    end function

    ! ------------------------------------------------------------------------------------------ decoder

    function f_decoder_initialise(i, column_major) result(err) bind(c)
        integer(c_int), value :: i
        type(c_ptr), value :: column_major
        integer(c_int) :: err
        logical, pointer :: c
        call opt_logical(column_major, c)
        err = decoders(i)%initialise(c)
        if (associated(c)) deallocate(c)
    end function

    function f_decoder_free(i) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int) :: err
        err = decoders(i)%free()
    end function

    function f_decoder_defaults_from_frame(i, f) result(err) bind(c)
        integer(c_int), value :: i, f
        integer(c_int) :: err
        err = decoders(i)%defaults_from_frame(frames(f))
    end function

    function f_decoder_set_row_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_long), value :: n
        integer(c_int) :: err
        err = decoders(i)%set_row_count(n)
    end function

    function f_decoder_row_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_long), intent(out) :: n
        integer(c_int) :: err
        err = decoders(i)%row_count(n)
    end function

    ! step > 1: every step-th of the elements along the first dimension
    function f_decoder_set_data(i, p, d1, d2, step, column_major) result(err) bind(c)
        integer(c_int), value :: i, d1, d2, step
        type(c_ptr), value :: p, column_major
        integer(c_int) :: err
        real(dp), pointer :: a(:,:)
        logical, pointer :: c
        call opt_logical(column_major, c)
        call c_f_pointer(p, a, [d1, d2])
        if (step > 1) then
            err = decoders(i)%set_data(a(1:d1:step, :), c)
        else
            err = decoders(i)%set_data(a, c)
        end if
        if (associated(c)) deallocate(c)
    end function

    function f_decoder_data(i, p, d1, d2, column_major) result(err) bind(c)
        integer(c_int), value :: i
        type(c_ptr), value :: p, column_major
        integer(c_int), intent(out) :: d1, d2
        integer(c_int) :: err
        type(c_ptr), pointer :: pp
        real(dp), pointer :: a(:,:)
        integer(c_int), pointer :: cm
        logical :: l
        call opt_int(column_major, cm)
        l = .false.
        if (associated(cm)) l = modulo(cm, 2) == 1
        d1 = -1
        d2 = -1
        if (c_associated(p)) then
            call c_f_pointer(p, pp)
            nullify(a)
            if (associated(cm)) then
                err = decoders(i)%data(a, l)
            else
                err = decoders(i)%data(a)
            end if
            if (associated(a)) then
                d1 = size(a, 1)
                d2 = size(a, 2)
                if (size(a) > 0) pp = c_loc(a(1, 1))
            end if
        else
            err = decoders(i)%data(column_major=l)
        end if
        if (associated(cm) .and. err == 0) cm = merge(1, 0, l)
    end function

    function f_decoder_add_column(i, name, n) result(err) bind(c)
        integer(c_int), value :: i, n
        type(c_ptr), value :: name
        integer(c_int) :: err
        err = decoders(i)%add_column(str(name, n))
    end function

    function f_decoder_column_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        err = decoders(i)%column_count(n)
    end function

    function f_decoder_column_set_data_size(i, col, es) result(err) bind(c)
        integer(c_int), value :: i, col, es
        integer(c_int) :: err
        err = decoders(i)%column_set_data_size(col, es)
    end function

    function f_decoder_column_set_data_array(i, col, es, stride, data) result(err) bind(c)
        integer(c_int), value :: i, col
        type(c_ptr), value :: es, stride, data
        integer(c_int) :: err
        integer(c_int), pointer :: pe, ps
        call opt_int(es, pe)
        call opt_int(stride, ps)
        if (c_associated(data)) then
            err = decoders(i)%column_set_data_array(col, pe, ps, data)
        else
            err = decoders(i)%column_set_data_array(col, pe, ps)
        end if
    end function

    function f_decoder_column_data_array(i, col, es, esd, stride, data) result(err) bind(c)
        integer(c_int), value :: i, col
        type(c_ptr), value :: es, esd, stride, data
        integer(c_int) :: err
        integer(c_int), pointer :: pe, ped, ps
        type(c_ptr), pointer :: pd
        call opt_int(es, pe)
        call opt_int(esd, ped)
        call opt_int(stride, ps)
        nullify(pd)
        if (c_associated(data)) call c_f_pointer(data, pd)
        err = decoders(i)%column_data_array(col, pe, ped, ps, pd)
    end function

    function f_decoder_decode(i, f, rows, nthreads) result(err) bind(c)
        integer(c_int), value :: i, f
        integer(c_long), intent(inout) :: rows
        type(c_ptr), value :: nthreads
        integer(c_int) :: err
        integer(c_int), pointer :: n
        call opt_int(nthreads, n)
        err = decoders(i)%decode(frames(f), rows, n)
    end function

    ! ------------------------------------------------------------------------------------------ encoder

    function f_encoder_initialise(i) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int) :: err
        err = encoders(i)%initialise()
    end function

    function f_encoder_free(i) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_int) :: err
        err = encoders(i)%free()
    end function

    function f_encoder_set_row_count(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_long), value :: n
        integer(c_int) :: err
        err = encoders(i)%set_row_count(n)
    end function

    function f_encoder_set_rows_per_frame(i, n) result(err) bind(c)
        integer(c_int), value :: i
        integer(c_long), value :: n
        integer(c_int) :: err
        err = encoders(i)%set_rows_per_frame(n)
    end function

    function f_encoder_set_data(i, p, d1, d2, step, column_major) result(err) bind(c)
        integer(c_int), value :: i, d1, d2, step
        type(c_ptr), value :: p, column_major
        integer(c_int) :: err
        real(dp), pointer :: a(:,:)
        logical, pointer :: c
        call opt_logical(column_major, c)
        call c_f_pointer(p, a, [d1, d2])
        if (step > 1) then
            err = encoders(i)%set_data(a(1:d1:step, :), c)
        else
            err = encoders(i)%set_data(a, c)
        end if
        if (associated(c)) deallocate(c)
    end function

    function f_encoder_add_column(i, name, n, t) result(err) bind(c)
        integer(c_int), value :: i, n, t
        type(c_ptr), value :: name
        integer(c_int) :: err
        err = encoders(i)%add_column(str(name, n), t)
    end function

    function f_encoder_add_property(i, key, nkey, val, nval) result(err) bind(c)
        integer(c_int), value :: i, nkey, nval
        type(c_ptr), value :: key, val
        integer(c_int) :: err
        err = encoders(i)%add_property(str(key, nkey), str(val, nval))
    end function

    function f_encoder_column_set_data_size(i, col, es, esd) result(err) bind(c)
        integer(c_int), value :: i, col
        type(c_ptr), value :: es, esd
        integer(c_int) :: err
        integer(c_int), pointer :: pe, ped
        call opt_int(es, pe)
        call opt_int(esd, ped)
        err = encoders(i)%column_set_data_size(col, pe, ped)
    end function

    function f_encoder_column_set_data_array(i, col, es, esd, stride, data) result(err) bind(c)
        integer(c_int), value :: i, col
        type(c_ptr), value :: es, esd, stride, data
        integer(c_int) :: err
        integer(c_int), pointer :: pe, ped, ps
        call opt_int(es, pe)
        call opt_int(esd, ped)
        call opt_int(stride, ps)
        if (c_associated(data)) then
            err = encoders(i)%column_set_data_array(col, pe, ped, ps, data)
        else
            err = encoders(i)%column_set_data_array(col, pe, ped, ps)
        end if
    end function

    function f_encoder_column_add_bitfield(i, col, name, n, nbits) result(err) bind(c)
        integer(c_int), value :: i, col, n, nbits
        type(c_ptr), value :: name
        integer(c_int) :: err
        err = encoders(i)%column_add_bitfield(col, str(name, n), nbits)
    end function

    ! encodes to a file; read only: the unit cannot be written to
    function f_encoder_encode(i, path, n, bytes, readonly) result(err) bind(c)
        integer(c_int), value :: i, n, readonly
        type(c_ptr), value :: path
        integer(c_long), intent(inout) :: bytes
        integer(c_int) :: err
        integer :: unit
        if (readonly /= 0) then
            open(newunit=unit, file=str(path, n), access='stream', form='unformatted', status='old', action='read')
        else
            open(newunit=unit, file=str(path, n), access='stream', form='unformatted', status='replace', action='write')
        end if
        err = encoders(i)%encode(unit, bytes)
        close(unit)
    end function

end module
