"""The proof units: harness, proof functions, property each proof serves."""
from vcrun import UnitHooks


class Unit:
    def __init__(self, name, src, proofs, hooks=None, defs=(), stubs=("stubs",), incs=()):
        self.name, self.src = name, src
        self.proofs = proofs
        self.hooks = hooks
        self.defs, self.stubs, self.incs = defs, stubs, incs


UNITS = {}


def unit(*a, **k):
    u = Unit(*a, **k)
    UNITS[u.name] = u


unit("numeric", "numeric.cpp",
     ["proof_small_integer", "proof_int16_le", "proof_int16_be", "proof_double_le", "proof_double_be"])
unit("decomp", "decomp.cpp", ["proof_rle_le64", "proof_rle_be32", "proof_rdc_le64", "proof_rdc_be32"])
unit("strings", "strings.cpp", ["proof_cell_text", "proof_header_text"])


class RealFP(UnitHooks):
    real_fp = True


class ByContract(UnitHooks):
    """callees replaced by an uninterpreted function of their (integer or double) arguments"""
    contracts = {}

    def lookup(self, B, n, d):
        for k, (name, bits) in self.contracts.items():
            if d.startswith(k):
                return lambda st, fr, ins, a: B._uf(name, [B.ex.num(st, x, 64) for x in a], bits)
        return None


class Cells(ByContract):
    contracts = {"cppsas7bdat::INTERNAL::get_datetime_from_epoch(": ("datetime_of", 64),
                 "cppsas7bdat::INTERNAL::get_date_from_epoch(": ("date_of", 32),
                 "cppsas7bdat::INTERNAL::get_time_from_epoch(": ("time_of", 64)}


unit("dates", "dates.cpp", ["proof_datetime", "proof_whole_seconds", "proof_date", "proof_time"], RealFP)
unit("datecells", "dates.cpp", ["proof_cells_le", "proof_cells_be"], Cells)
unit("text", "text.cpp", ["proof_date_text", "proof_time_text", "proof_negative_time_text", "proof_datetime_text", "proof_special_text"])
class ByText(ByContract):
    """get_string_trim by contract (proved in unit strings): a part of the field, a function
    of where the field lies and of the contents of that memory"""

    def lookup(self, B, n, d):
        if d.startswith("cppsas7bdat::INTERNAL::get_string_trim("):
            return lambda st, fr, ins, a: self.trim(B, st, a)
        return super().lookup(B, n, d)

    def trim(self, B, st, a):
        from terms import Ptr, add, sub, ule, simp, same
        ex = B.ex
        p, n = a[0], simp(a[1])
        p = Ptr(p.rid, simp(p.off))
        r = ex.region(st, p, n, "text field")
        if st.stopped:
            return None
        r = ex.to_bytes(st, p.rid)
        memo = st.env.get('trim', ())
        for (rid, off, m, arr, v) in memo:
            if rid == p.rid and arr is r.arr and same(off, p.off) and same(m, n):
                return tuple(v)
        first, size = ex.fresh(64, 'first'), ex.fresh(64, 'size')
        st.assume(simp(ule(first, n)))
        st.assume(simp(ule(size, sub(n, first, 64))))
        v = [size, Ptr(p.rid, simp(add(p.off, first, 64)))]
        st.env['trim'] = memo + ((p.rid, p.off, n, r.arr, v),)
        return tuple(v)


class Header(ByText):
    contracts = {"cppsas7bdat::INTERNAL::get_datetime_from_epoch(": ("datetime_of", 64)}


unit("header", "header.cpp", ["proof_check_header", "proof_read_header_le64", "proof_read_header_le32", "proof_read_header_be64", "proof_read_header_be32", "proof_header_dispatch"], Header)
unit("encoding", "encoding.cpp", ["proof_encoding"])
unit("pagelist", "pagelist.cpp", ["proof_list_le64", "proof_list_le32", "proof_list_be64", "proof_list_be32"])
WALK = ["proof_line_%s_%s" % (s, n) for n in ("le64", "be32") for s in ("NOPAGE", "DATA", "MIX", "META")]
WALK += ["proof_line_DATA_le32", "proof_line_DATA_be64", "proof_skip", "proof_start_rows", "proof_start_le64", "proof_start_be32"]
unit("walk", "walk.cpp", WALK)
unit("protocol", "protocol.cpp", ["proof_read_row", "proof_read_row_no_sink", "proof_skip_rows", "proof_read_rows", "proof_read_all", "proof_end_of_data", "proof_empty_reader"])
META = ["proof_row_size_" + x for x in ("le64", "le32", "be64", "be32")] + ["proof_column_size_le64", "proof_column_size_be32", "proof_dispatch64", "proof_dispatch32",
        "proof_each_le64", "proof_each_be32", "proof_pages", "proof_attributes_le64", "proof_attributes_be32"]
unit("meta", "meta.cpp", META, Header)
COLS = ["proof_text_first_le64", "proof_text_first_be32", "proof_text_other_le64", "proof_text_part", "proof_text_part_cut", "proof_text_part_gone"]


STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
VSTR = "std::vector<%s, std::allocator<%s>>" % (STR, STR)


class Columns(Header):
    redirects = {VSTR + "::operator[](unsigned long) const": "text_at", STR + "::substr(unsigned long, unsigned long) const": "text_sub"}

    def lookup(self, B, n, d):
        if d.startswith("std::basic_string_view<char, std::char_traits<char>>::find(char const*, unsigned long, unsigned long) const"):
            return lambda st, fr, ins, a: self.find(B, st, a)
        return super().lookup(B, n, d)

    def find(self, B, st, a):
        """where the bytes of the needle first are in the text, or npos: a function of both"""
        from terms import Ptr, sub, ule, simp, lor, eq, same
        from ir import PTR, INT
        ex = B.ex
        this, s, pos, n = a
        size = ex.load(st, this, INT(64))
        p = ex.load(st, Ptr(this.rid, this.off + 8), PTR)
        ex.region(st, p, size, "text")
        if st.stopped:
            return None
        r = ex.to_bytes(st, p.rid)
        size, p = simp(size), Ptr(p.rid, simp(p.off))
        needle = bytes(ex.B.bytes_at(st, s, n))
        memo = st.env.get('find', ())
        for (rid, arr, off, m, q, ps, v) in memo:
            if rid == p.rid and arr is r.arr and q == needle and same(off, p.off) and same(m, size) and same(ps, pos):
                return v
        v = ex.fresh(64, 'found')
        st.assume(simp(lor(eq(v, (1 << 64) - 1, 64), ule(v, sub(size, len(needle), 64)))))
        st.env['find'] = memo + ((p.rid, r.arr, p.off, size, needle, pos, v),)
        return v


unit("columns", "columns.cpp", COLS, Columns)


class Tokens(Header):
    """strings stand for where they come from: only moved, copied and handed on"""
    redirects = {"::get_column_text_substr[": "text_of", VSTR + "::emplace_back": "text_add",
                 VSTR + "::push_back(": "text_add"}

    def redirect(self, d):
        for k, v in self.redirects.items():
            if k in d:
                return v
        return None


unit("names", "names.cpp", ["proof_names_le64", "proof_names_be32", "proof_format_label_le64", "proof_format_label_be32"], Tokens)
FORMATS = ["proof_format_%s" % n for n in list(range(11)) + ["long"]]
unit("formats", "formats.cpp", FORMATS)


class Create(Tokens):
    redirects = {VSTR + "::at(unsigned long)": "text_at", VSTR + "::vector(std::vector<": "list_copy", VSTR + "::~vector()": "list_gone",
                 "std::vector<unsigned long, std::allocator<unsigned long>>::vector(std::vector<": "list_copy",
                 "std::vector<unsigned long, std::allocator<unsigned long>>::~vector()": "list_gone",
                 "std::vector<cppsas7bdat::Column::Type, std::allocator<cppsas7bdat::Column::Type>>::vector(std::vector<": "list_copy",
                 "std::vector<cppsas7bdat::Column::Type, std::allocator<cppsas7bdat::Column::Type>>::~vector()": "list_gone",
                 "std::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::reserve(": "list_gone",
                 "::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::emplace_back<": "column_add",
                 "::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::push_back(": "column_add",
                 STR + "::basic_string(" + STR + " const&)": "string_copy", STR + "::basic_string(" + STR + "&&)": "string_copy",
                 "::is_datetime_format(": "is_dt", "::is_date_format(": "is_d", "::is_time_format(": "is_t"}

    def lookup(self, B, n, d):
        if d.startswith("unsigned long const& std::min<unsigned long>(unsigned long const&, unsigned long const&)"):
            return lambda st, fr, ins, a: self.least(B, st, fr, a)
        return super().lookup(B, n, d)

    def least(self, B, st, fr, a):
        """the smaller value, in a place of its own (read only)"""
        from terms import Ptr, ite, ult, simp
        from ir import INT
        ex = B.ex
        x, y = ex.load(st, a[0], INT(64)), ex.load(st, a[1], INT(64))
        p = Ptr(ex.new_region(st, 'cell', 'least', 8), 0)
        fr.allocas.append(p.rid)
        ex.store(st, p, INT(64), simp(ite(ult(y, x), y, x, 64)))
        return p


unit("create", "create.cpp", ["proof_columns_le64", "proof_columns_be32", "proof_columns_filter"], Create, defs=("VC_QUIET_LOG",))


class Split(Create):
    redirects = {"std::set<" + STR + ", std::less<" + STR + ">, std::allocator<" + STR + ">>::find(": "set_find",
                 "std::set<" + STR + ", std::less<" + STR + ">, std::allocator<" + STR + ">>::count(": "set_count",
                 "std::set<" + STR + ", std::less<" + STR + ">, std::allocator<" + STR + ">>::contains(": "set_count",
                 "std::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::reserve(": "list_gone",
                 "::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::emplace_back<": "column_add",
                 "::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::push_back(": "column_add",
                 STR + "::basic_string(" + STR + " const&)": "string_copy", STR + "::basic_string(" + STR + "&&)": "string_copy"}


class SplitAll(Split):
    redirects = {"cppsas7bdat::get_columns(": "split_by", "std::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>::~vector()": "list_gone"}


unit("filters", "split.cpp", ["proof_include", "proof_exclude", "proof_include_exclude", "proof_split_one"], Split)
unit("split", "split.cpp", ["proof_split"], SplitAll)
