! The Fortran interface, callable from C++. Absent optional arguments are null pointers.
module f28
    use, intrinsic :: iso_c_binding
    use odc
    implicit none
    character(:), allocatable, target, save :: text1, text2
    integer(c_long), bind(c, name='f28_handler_context') :: handler_context = 0
    integer(c_int), bind(c, name='f28_handler_error') :: handler_error = 0
    integer(c_int), bind(c, name='f28_handler_calls') :: handler_calls = 0
contains
    function str(p, n) result(s)
        type(c_ptr), value :: p
        integer(c_long), value :: n
        character(:), allocatable :: s
        character(c_char), pointer :: a(:)
        integer :: i
        allocate(character(n) :: s)
        if (n > 0) call c_f_pointer(p, a, [n])
        do i = 1, int(n)
            s(i:i) = a(i)
        end do
    end function

    subroutine give(s, p, n)
        character(:), allocatable, target :: s
        type(c_ptr), intent(out) :: p
        integer(c_long), intent(out) :: n
        if (.not. allocated(s)) then
            p = c_null_ptr
            n = -1
        else
            n = len(s)
            if (n == 0) s = ' '
            p = c_loc(s)
        end if
    end subroutine

    subroutine flag(i, l)
        integer(c_int), intent(in), optional :: i
        logical, allocatable :: l
        if (present(i)) l = i /= 0
    end subroutine

    function f28_version(vcs, p, n) result(err) bind(c)
        integer(c_int), value :: vcs
        type(c_ptr), intent(out) :: p
        integer(c_long), intent(out) :: n
        integer(c_int) :: err
        if (vcs /= 0) then
            err = odc_vcs_version(text1)
        else
            err = odc_version(text1)
        end if
        call give(text1, p, n)
    end function

    function f28_type_name(type, p, n) result(err) bind(c)
        integer(c_int), value :: type
        type(c_ptr), intent(out) :: p
        integer(c_long), intent(out) :: n
        integer(c_int) :: err
        err = odc_column_type_name(type, text1)
        call give(text1, p, n)
    end function

    subroutine f28_error_string(code, p, n) bind(c)
        integer(c_int), value :: code
        type(c_ptr), intent(out) :: p
        integer(c_long), intent(out) :: n
        text1 = odc_error_string(int(code))
        call give(text1, p, n)
    end subroutine

    function f28_type_count(n) result(err) bind(c)
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        err = odc_column_type_count(n)
    end function

    function f28_missing(set, i, d) result(err) bind(c)
        integer(c_int), value :: set
        integer(c_long), intent(inout) :: i
        real(c_double), intent(inout) :: d
        integer(c_int) :: err
        if (set /= 0) then
            err = odc_set_missing_integer(i)
            if (err == ODC_SUCCESS) err = odc_set_missing_double(d)
        else
            err = odc_missing_integer(i)
            if (err == ODC_SUCCESS) err = odc_missing_double(d)
        end if
    end function

    function f28_integer_behaviour(b) result(err) bind(c)
        integer(c_int), value :: b
        integer(c_int) :: err
        err = odc_integer_behaviour(b)
    end function

    subroutine f28_constants(v) bind(c)
        integer(c_int), intent(out) :: v(12)
        v = [ODC_IGNORE, ODC_INTEGER, ODC_REAL, ODC_STRING, ODC_BITFIELD, ODC_DOUBLE, ODC_SUCCESS, ODC_ITERATION_COMPLETE, &
             ODC_ERROR_GENERAL_EXCEPTION, ODC_ERROR_UNKNOWN_EXCEPTION, ODC_INTEGERS_AS_DOUBLES, ODC_INTEGERS_AS_LONGS]
    end subroutine

    subroutine on_failure(context, error)
        integer, parameter :: int64 = selected_int_kind(15)
        integer(int64), intent(in) :: context
        integer, intent(in) :: error
        handler_context = context
        handler_error = error
        handler_calls = handler_calls + 1
    end subroutine

    function f28_set_handler(context) result(err) bind(c)
        integer(c_long), value :: context
        integer(c_int) :: err
        err = odc_set_failure_handler(on_failure, context)
    end function

    ! readers and frames

    function f28_open(path, n, p) result(err) bind(c)
        type(c_ptr), value :: path
        integer(c_long), value :: n
        type(c_ptr), intent(out) :: p
        integer(c_int) :: err
        type(odc_reader) :: r
        err = r%open_path(str(path, n))
        p = r%impl
    end function

    function f28_close(p) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int) :: err
        type(odc_reader) :: r
        r%impl = p
        err = r%close()
        if (c_associated(r%impl)) err = -1
    end function

    function f28_frame(reader, p) result(err) bind(c)
        type(c_ptr), value :: reader
        type(c_ptr), intent(out) :: p
        integer(c_int) :: err
        type(odc_reader) :: r
        type(odc_frame) :: f
        r%impl = reader
        err = f%initialise(r)
        p = f%impl
    end function

    function f28_frame_free(p) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        err = f%free()
    end function

    function f28_frame_copy(from, p) result(err) bind(c)
        type(c_ptr), value :: from
        type(c_ptr), intent(out) :: p
        integer(c_int) :: err
        type(odc_frame) :: f, g
        f%impl = from
        err = f%copy(g)
        p = g%impl
    end function

    function f28_next(p, aggregated, maximum_rows) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), intent(in), optional :: aggregated
        integer(c_long), intent(in), optional :: maximum_rows
        integer(c_int) :: err
        logical, allocatable :: l
        type(odc_frame) :: f
        f%impl = p
        call flag(aggregated, l)
        err = f%next(l, maximum_rows)
    end function

    function f28_rows(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_long), intent(out) :: n
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        err = f%row_count(n)
    end function

    function f28_columns(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        err = f%column_count(n)
    end function

    ! name is wanted when 'named'
    function f28_attributes(p, col, named, name, n, type, size, doubles, bits) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col, named
        type(c_ptr), intent(out) :: name
        integer(c_long), intent(out) :: n
        integer(c_int), intent(out), optional :: type, size, doubles, bits
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        if (named /= 0) then
            err = f%column_attributes(col, name=text1, type=type, element_size=size, element_size_doubles=doubles, bitfield_count=bits)
            call give(text1, name, n)
        else
            err = f%column_attributes(col, type=type, element_size=size, element_size_doubles=doubles, bitfield_count=bits)
        end if
    end function

    function f28_bits(p, col, field, named, name, n, offset, size) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col, field, named
        type(c_ptr), intent(out) :: name
        integer(c_long), intent(out) :: n
        integer(c_int), intent(out), optional :: offset, size
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        if (named /= 0) then
            err = f%bitfield_attributes(col, field, name=text1, offset=offset, size=size)
            call give(text1, name, n)
        else
            err = f%bitfield_attributes(col, field, offset=offset, size=size)
        end if
    end function

    function f28_properties(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        err = f%properties_count(n)
    end function

    function f28_property_idx(p, idx, k, kn, v, vn) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: idx
        type(c_ptr), intent(out) :: k, v
        integer(c_long), intent(out) :: kn, vn
        integer(c_int) :: err
        type(odc_frame) :: f
        f%impl = p
        err = f%property_idx(idx, text1, text2)
        call give(text1, k, kn)
        call give(text2, v, vn)
    end function

    ! how: 0 value and existence, 1 value only, 2 existence only
    function f28_property(p, how, key, kn, v, vn, exists) result(err) bind(c)
        type(c_ptr), value :: p, key
        integer(c_int), value :: how
        integer(c_long), value :: kn
        type(c_ptr), intent(out) :: v
        integer(c_long), intent(out) :: vn
        integer(c_int), intent(out) :: exists
        integer(c_int) :: err
        logical :: l
        type(odc_frame) :: f
        f%impl = p
        exists = -1
        vn = -2
        v = c_null_ptr
        if (how == 0) err = f%property(str(key, kn), text1, l)
        if (how == 1) err = f%property(str(key, kn), text1)
        if (how == 2) err = f%property(str(key, kn), exists=l)
        if (how /= 2) call give(text1, v, vn)
        if (how /= 1 .and. err == ODC_SUCCESS) exists = merge(1, 0, l)
    end function

    ! decoders

    function f28_decoder(column_major, p) result(err) bind(c)
        integer(c_int), intent(in), optional :: column_major
        type(c_ptr), intent(out) :: p
        integer(c_int) :: err
        logical, allocatable :: l
        type(odc_decoder) :: d
        call flag(column_major, l)
        err = d%initialise(l)
        p = d%impl
    end function

    function f28_decoder_free(p) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%free()
    end function

    function f28_defaults(p, frame) result(err) bind(c)
        type(c_ptr), value :: p, frame
        integer(c_int) :: err
        type(odc_decoder) :: d
        type(odc_frame) :: f
        d%impl = p
        f%impl = frame
        err = d%defaults_from_frame(f)
    end function

    function f28_dec_set_rows(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_long), value :: n
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%set_row_count(n)
    end function

    function f28_dec_rows(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_long), intent(out) :: n
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%row_count(n)
    end function

    ! an array (n1, n2), or its part (k1, k2)
    function f28_dec_set_data(p, data, n1, n2, k1, k2, column_major) result(err) bind(c)
        type(c_ptr), value :: p, data
        integer(c_long), value :: n1, n2, k1, k2
        integer(c_int), intent(in), optional :: column_major
        integer(c_int) :: err
        real(c_double), pointer :: a(:,:)
        logical, allocatable :: l
        type(odc_decoder) :: d
        d%impl = p
        call flag(column_major, l)
        call c_f_pointer(data, a, [n1, n2])
        if (k1 == n1 .and. k2 == n2) then
            err = d%set_data(a, l)
        else
            err = d%set_data(a(1:k1, 1:k2), l)
        end if
    end function

    function f28_dec_data(p, wanted, data, n1, n2, column_major) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: wanted
        type(c_ptr), intent(out) :: data
        integer(c_long), intent(out) :: n1, n2
        integer(c_int), intent(out), optional :: column_major
        integer(c_int) :: err
        real(c_double), pointer :: a(:,:)
        logical, allocatable :: l
        type(odc_decoder) :: d
        d%impl = p
        a => null()
        if (present(column_major)) l = .false.
        if (wanted /= 0) then
            err = d%data(a, l)
            if (associated(a)) then
                n1 = size(a, 1)
                n2 = size(a, 2)
                data = c_loc(a)
            end if
        else
            err = d%data(column_major=l)
        end if
        if (present(column_major)) column_major = merge(1, 0, l)
    end function

    function f28_dec_add(p, name, n) result(err) bind(c)
        type(c_ptr), value :: p, name
        integer(c_long), value :: n
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%add_column(str(name, n))
    end function

    function f28_dec_columns(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), intent(out) :: n
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%column_count(n)
    end function

    function f28_dec_col_size(p, col, size) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col, size
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%column_set_data_size(col, size)
    end function

    function f28_dec_col_set(p, col, size, stride, data) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col
        integer(c_int), intent(in), optional :: size, stride
        type(c_ptr), value :: data
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        if (c_associated(data)) then
            err = d%column_set_data_array(col, size, stride, data)
        else
            err = d%column_set_data_array(col, size, stride)
        end if
    end function

    function f28_dec_col(p, col, size, doubles, stride, data) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col
        integer(c_int), intent(out), optional :: size, doubles, stride
        type(c_ptr), intent(out), optional :: data
        integer(c_int) :: err
        type(odc_decoder) :: d
        d%impl = p
        err = d%column_data_array(col, size, doubles, stride, data)
    end function

    function f28_decode(p, frame, rows, threads) result(err) bind(c)
        type(c_ptr), value :: p, frame
        integer(c_long), intent(out) :: rows
        integer(c_int), intent(in), optional :: threads
        integer(c_int) :: err
        type(odc_decoder) :: d
        type(odc_frame) :: f
        d%impl = p
        f%impl = frame
        err = d%decode(f, rows, threads)
    end function

    ! encoders

    function f28_encoder(p) result(err) bind(c)
        type(c_ptr), intent(out) :: p
        integer(c_int) :: err
        type(odc_encoder) :: e
        err = e%initialise()
        p = e%impl
    end function

    function f28_encoder_free(p) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%free()
    end function

    function f28_enc_rows(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_long), value :: n
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%set_row_count(n)
    end function

    function f28_enc_rows_per_frame(p, n) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_long), value :: n
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%set_rows_per_frame(n)
    end function

    function f28_enc_set_data(p, data, n1, n2, k1, k2, column_major) result(err) bind(c)
        type(c_ptr), value :: p, data
        integer(c_long), value :: n1, n2, k1, k2
        integer(c_int), intent(in), optional :: column_major
        integer(c_int) :: err
        real(c_double), pointer :: a(:,:)
        logical, allocatable :: l
        type(odc_encoder) :: e
        e%impl = p
        call flag(column_major, l)
        call c_f_pointer(data, a, [n1, n2])
        if (k1 == n1 .and. k2 == n2) then
            err = e%set_data(a, l)
        else
            err = e%set_data(a(1:k1, 1:k2), l)
        end if
    end function

    function f28_enc_add(p, name, n, type) result(err) bind(c)
        type(c_ptr), value :: p, name
        integer(c_long), value :: n
        integer(c_int), value :: type
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%add_column(str(name, n), type)
    end function

    function f28_enc_property(p, k, kn, v, vn) result(err) bind(c)
        type(c_ptr), value :: p, k, v
        integer(c_long), value :: kn, vn
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%add_property(str(k, kn), str(v, vn))
    end function

    function f28_enc_col_size(p, col, size, doubles) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col
        integer(c_int), intent(in), optional :: size, doubles
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%column_set_data_size(col, size, doubles)
    end function

    function f28_enc_col_set(p, col, size, doubles, stride, data) result(err) bind(c)
        type(c_ptr), value :: p
        integer(c_int), value :: col
        integer(c_int), intent(in), optional :: size, doubles, stride
        type(c_ptr), value :: data
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        if (c_associated(data)) then
            err = e%column_set_data_array(col, size, doubles, stride, data)
        else
            err = e%column_set_data_array(col, size, doubles, stride)
        end if
    end function

    function f28_enc_bits(p, col, name, n, nbits) result(err) bind(c)
        type(c_ptr), value :: p, name
        integer(c_int), value :: col, nbits
        integer(c_long), value :: n
        integer(c_int) :: err
        type(odc_encoder) :: e
        e%impl = p
        err = e%column_add_bitfield(col, str(name, n), nbits)
    end function

    ! mode: 0 a new file, 1 append, 2 a unit which cannot be written, 3 a unit which is not open; -1: the unit does not open
    function f28_encode(p, path, n, mode, bytes) result(err) bind(c)
        type(c_ptr), value :: p, path
        integer(c_long), value :: n
        integer(c_int), value :: mode
        integer(c_long), intent(out) :: bytes
        integer(c_int) :: err
        integer :: u, ios
        type(odc_encoder) :: e
        e%impl = p
        u = 77
        ios = 0
        if (mode == 0) open(newunit=u, file=str(path, n), access='stream', form='unformatted', status='replace', action='write', iostat=ios)
        if (mode == 1) open(newunit=u, file=str(path, n), access='stream', form='unformatted', position='append', action='write', iostat=ios)
        if (mode == 2) open(newunit=u, file=str(path, n), access='stream', form='unformatted', status='old', action='read', iostat=ios)
        err = -1
        if (ios /= 0) return
        if (mode == 3) open(newunit=u, file=str(path, n), form='formatted', status='replace', action='write', iostat=ios)
        err = e%encode(u, bytes)
        close(u)
    end function
end module
