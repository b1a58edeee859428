/* Stand-in for the stream headers in the symbolic build: formatting and
 * parsing of characters, strings and numbers over stream buffers, without
 * locales. The native replay uses the real ones. */
#ifndef SX_STREAMS
#define SX_STREAMS
#include <string>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace std
{
    typedef long streamsize_sx;
    class ios_base
    {
    public:
        typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode;
        static const fmtflags dec = 1, hex = 2, uppercase = 4, fixed = 8, scientific = 16, showpoint = 32, boolalpha = 64;
        static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static const openmode in = 1, out = 2, binary = 4, app = 8, ate = 16, trunc = 32;
        fmtflags flags () const { return f; }
        fmtflags flags (fmtflags n) { fmtflags o = f; f = n; return o; }
        fmtflags setf (fmtflags n) { fmtflags o = f; f |= n; return o; }
        streamsize_sx precision () const { return p; }
        streamsize_sx precision (streamsize_sx n) { streamsize_sx o = p; p = n; return o; }
        streamsize_sx width () const { return w; }
        streamsize_sx width (streamsize_sx n) { streamsize_sx o = w; w = n; return o; }
    protected:
        ios_base () : f (dec), p (6), w (0), c (' ') {}
        fmtflags f; streamsize_sx p, w; char c;
    };
    inline ios_base &hex (ios_base &s) { s.flags ((s.flags () & ~ios_base::dec) | ios_base::hex); return s; }
    inline ios_base &dec (ios_base &s) { s.flags ((s.flags () & ~ios_base::hex) | ios_base::dec); return s; }
    inline ios_base &uppercase (ios_base &s) { s.setf (ios_base::uppercase); return s; }
    inline ios_base &fixed (ios_base &s) { s.flags ((s.flags () & ~ios_base::scientific) | ios_base::fixed); return s; }
    inline ios_base &scientific (ios_base &s) { s.flags ((s.flags () & ~ios_base::fixed) | ios_base::scientific); return s; }
    inline ios_base &showpoint (ios_base &s) { s.setf (ios_base::showpoint); return s; }
    inline ios_base &boolalpha (ios_base &s) { s.setf (ios_base::boolalpha); return s; }
    struct sx_setw { int n; }; struct sx_setfill { char n; }; struct sx_setprecision { int n; };
    inline sx_setw setw (int n) { sx_setw r = { n }; return r; }
    inline sx_setfill setfill (char n) { sx_setfill r = { n }; return r; }
    inline sx_setprecision setprecision (int n) { sx_setprecision r = { n }; return r; }

    template<> class basic_streambuf<char, char_traits<char>>
    {
    public:
        typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
        virtual ~basic_streambuf () {}
        streamsize sputn (const char *s, streamsize n) { return xsputn (s, n); }
        int_type sputc (char ch) { return overflow ((unsigned char) ch); }
        int_type sgetc () { return g < e ? (unsigned char) *g : underflow (); }
        int_type sbumpc () { int_type r = sgetc (); if (r != -1) g++; return r; }
        int_type snextc () { return sbumpc () == -1 ? -1 : sgetc (); }
        int pubsync () { return sync (); }
    protected:
        basic_streambuf () : b (0), g (0), e (0) {}
        char *eback () const { return b; } char *gptr () const { return g; } char *egptr () const { return e; }
        void setg (char *x, char *y, char *z) { b = x; g = y; e = z; }
        void gbump (int n) { g += n; }
        virtual int_type overflow (int_type) { return -1; }
        virtual int_type underflow () { return -1; }
        virtual int sync () { return 0; }
        virtual streamsize xsputn (const char *s, streamsize n)
        {
            streamsize i;
            for (i = 0; i < n; i++) if (overflow ((unsigned char) s[i]) == -1) break;
            return i;
        }
    private:
        char *b, *g, *e;
    };
    class sx_stringbuf : public streambuf
    {
    public:
        sx_stringbuf () : at (0) {}
        string get () const { return t; }
        void put (const string &s) { t = s; at = 0; setg (0, 0, 0); }
    protected:
        int overflow (int c) { t.push_back ((char) c); return c; }
        streamsize xsputn (const char *s, streamsize n) { t.append (s, n); return n; }
        int underflow ()
        {
            if (gptr () < egptr ()) return (unsigned char) *gptr ();
            if (at >= t.size ()) return -1;
            ch = t[at++]; setg (&ch, &ch, &ch + 1);
            return (unsigned char) ch;
        }
    private:
        string t; size_t at; char ch;
    };
    template<> class basic_ios<char, char_traits<char>> : public ios_base
    {
    public:
        basic_ios () : sb (0), st (0) {}
        streambuf *rdbuf () const { return sb; }
        streambuf *rdbuf (streambuf *n) { streambuf *o = sb; sb = n; st = 0; return o; }
        bool good () const { return st == 0; } bool eof () const { return st & eofbit; } bool bad () const { return st & badbit; }
        bool fail () const { return st & (badbit | failbit); }
        explicit operator bool () const { return !fail (); }
        bool operator! () const { return fail (); }
        void clear (iostate n = goodbit) { st = n; }
        void setstate (iostate n) { st |= n; }
        iostate rdstate () const { return st; }
        char fill () const { return c; }
        char fill (char n) { char o = c; c = n; return o; }
    protected:
        streambuf *sb; iostate st;
    };
    template<> class basic_ostream<char, char_traits<char>> : virtual public ios
    {
    public:
        explicit basic_ostream (streambuf *s) { sb = s; if (!s) st = badbit; }
        virtual ~basic_ostream () {}
        ostream &write (const char *s, streamsize n) { return put_ (s, n); }
        ostream &put (char ch) { return put_ (&ch, 1); }
        ostream &flush () { if (sb && sb->pubsync () == -1) st |= badbit; return *this; }
        ostream &operator<< (const string &s) { return pad (s.data (), s.size ()); }
        ostream &operator<< (const char *s) { if (!s) { st |= badbit; return *this; } return pad (s, strlen (s)); }
        ostream &operator<< (char ch) { return pad (&ch, 1); }
        ostream &operator<< (unsigned char ch) { return pad ((char *) &ch, 1); }
        ostream &operator<< (bool v) { if (f & boolalpha) return *this << (v ? "true" : "false"); return *this << (long) v; }
        ostream &operator<< (int v) { if (f & hex) return num (false, (unsigned) v); return *this << (long) v; }
        ostream &operator<< (short v) { return *this << (long) v; }
        ostream &operator<< (long v) { if (f & hex) return num (false, (unsigned long) v); return num (v < 0, v < 0 ? 0ul - (unsigned long) v : (unsigned long) v); }
        ostream &operator<< (long long v) { return *this << (long) v; }
        ostream &operator<< (unsigned v) { return num (false, v); }
        ostream &operator<< (unsigned short v) { return num (false, v); }
        ostream &operator<< (unsigned long v) { return num (false, v); }
        ostream &operator<< (unsigned long long v) { return num (false, v); }
        ostream &operator<< (double v)
        {
            char t[400], m[16]; int n = 0;
            m[n++] = '%'; if (f & showpoint) m[n++] = '#';
            m[n++] = '.'; m[n++] = '*'; m[n++] = f & fixed ? 'f' : f & scientific ? 'e' : 'g'; m[n] = 0;
            n = snprintf (t, sizeof t, m, (int) p, v);
            return pad (t, n);
        }
        ostream &operator<< (ios_base &(*m) (ios_base &)) { m (*this); return *this; }
        ostream &operator<< (ostream &(*m) (ostream &)) { return m (*this); }
        ostream &operator<< (sx_setw m) { w = m.n; return *this; }
        ostream &operator<< (sx_setfill m) { c = m.n; return *this; }
        ostream &operator<< (sx_setprecision m) { p = m.n; return *this; }
        ostream &operator<< (streambuf *s) { int n; while ((n = s->sbumpc ()) != -1) put ((char) n); return *this; }
    private:
        ostream &put_ (const char *s, streamsize n) { if (st) return *this; if (!sb || sb->sputn (s, n) != n) st |= badbit; return *this; }
        ostream &pad (const char *s, streamsize n) { while (w > n) { put_ (&c, 1); w--; } w = 0; return put_ (s, n); }
        ostream &num (bool neg, unsigned long v)
        {
            char t[24]; int i = 24; unsigned long r = f & hex ? 16 : 10;
            do { unsigned long d = v % r; t[--i] = d < 10 ? (char) ('0' + d) : (char) ((f & ios_base::uppercase ? 'A' : 'a') + d - 10); } while (v /= r);
            if (neg) t[--i] = '-';
            return pad (t + i, 24 - i);
        }
    };
    inline ostream &endl (ostream &o) { return o.put ('\n').flush (); }
    inline ostream &flush (ostream &o) { return o.flush (); }
    template<> class basic_istream<char, char_traits<char>> : virtual public ios
    {
    public:
        explicit basic_istream (streambuf *s) { sb = s; if (!s) st = badbit; }
        virtual ~basic_istream () {}
        int get () { if (st) { st |= failbit; return -1; } int n = sb->sbumpc (); if (n == -1) st |= eofbit | failbit; return n; }
        istream &get (char &o) { int n = get (); if (n != -1) o = (char) n; return *this; }
        istream &read (char *o, streamsize n) { n_ = 0; if (st) { st |= failbit; return *this; } while (n_ < n) { int v = sb->sbumpc (); if (v == -1) { st |= eofbit | failbit; break; } o[n_++] = (char) v; } return *this; }
        streamsize gcount () const { return n_; }
        int peek () { if (st) return -1; int n = sb->sgetc (); if (n == -1) st |= eofbit; return n; }
        istream &operator>> (ios_base &(*m) (ios_base &)) { m (*this); return *this; }
        istream &operator>> (double &v)
        {
            string t; if (!begin ()) { v = 0; return *this; }
            for (int n; (n = sb->sgetc ()) != -1 && ((n >= '0' && n <= '9') || n == '.' || n == 'e' || n == 'E' || n == '-' || n == '+'); sb->sbumpc ())
            {
                /* a sign only starts the number or its exponent */
                if ((n == '-' || n == '+') && t.size () && t[t.size () - 1] != 'e' && t[t.size () - 1] != 'E') break;
                t.push_back ((char) n);
            }
            if (sb->sgetc () == -1) st |= eofbit;
            char *end = 0; v = strtod (t.c_str (), &end);
            if (t.empty () || *end) { v = 0; st |= failbit; }
            else if (v > 1.7976931348623157e308 || v < -1.7976931348623157e308) { v = v > 0 ? 1.7976931348623157e308 : -1.7976931348623157e308; st |= failbit; }
            return *this;
        }
        istream &operator>> (long &v)
        {
            bool neg = false, big = false, any = false; unsigned long x = 0, r = f & hex ? 16 : 10; int n;
            if (!begin ()) { v = 0; return *this; }
            n = sb->sgetc ();
            if (n == '-' || n == '+') { neg = n == '-'; n = sb->snextc (); }
            for (; n != -1; n = sb->snextc ())
            {
                unsigned long d = n >= '0' && n <= '9' ? n - '0' : r == 16 && n >= 'a' && n <= 'f' ? n - 'a' + 10 : r == 16 && n >= 'A' && n <= 'F' ? n - 'A' + 10 : 99;
                if (d == 99) break;
                any = true;
                if (x > (~0ul - d) / r) big = true;
                x = x * r + d;
            }
            if (n == -1) st |= eofbit;
            if (!any) { v = 0; st |= failbit; }
            else if (big || x > (neg ? 1ul << 63 : (1ul << 63) - 1)) { v = neg ? (long) (1ul << 63) : (long) ((1ul << 63) - 1); st |= failbit; }
            else v = neg ? (long) (0ul - x) : (long) x;
            return *this;
        }
        istream &operator>> (int &v) { long x; *this >> x; v = (int) x; if (x != v) { v = x < 0 ? -2147483647 - 1 : 2147483647; st |= failbit; } return *this; }
        istream &operator>> (unsigned &v) { long x; *this >> x; v = (unsigned) x; if (x < 0 || x > 4294967295l) { v = ~0u; st |= failbit; } return *this; }
        istream &operator>> (long long &v) { long x; *this >> x; v = x; return *this; }
    private:
        streamsize n_ = 0;
        bool begin ()
        {
            if (st) { st |= failbit; return false; }
            int n = sb->sgetc ();
            while (n == ' ' || (n >= 9 && n <= 13)) n = sb->snextc ();
            if (n == -1) { st |= eofbit | failbit; return false; }
            return true;
        }
    };
    template<> class istreambuf_iterator<char, char_traits<char>>
    {
    public:
        typedef input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef char *pointer; typedef char reference; typedef int int_type;
        typedef char char_type; typedef char_traits<char> traits_type; typedef streambuf streambuf_type; typedef istream istream_type;
        istreambuf_iterator () : b (0) {}
        istreambuf_iterator (istream &i) : b (i.rdbuf ()) {}
        istreambuf_iterator (streambuf *s) : b (s) {}
        char operator* () const { return (char) b->sgetc (); }
        istreambuf_iterator &operator++ () { b->sbumpc (); return *this; }
        istreambuf_iterator operator++ (int) { istreambuf_iterator o = *this; b->sbumpc (); return o; }
        bool equal (const istreambuf_iterator &o) const { return end () == o.end (); }
        friend bool operator== (const istreambuf_iterator &x, const istreambuf_iterator &y) { return x.equal (y); }
        friend bool operator!= (const istreambuf_iterator &x, const istreambuf_iterator &y) { return !x.equal (y); }
    private:
        bool end () const { return !b || b->sgetc () == -1; }
        streambuf *b;
    };
    inline istream &getline (istream &i, string &o, char delim)
    {
        o.clear (); bool any = false;
        if (!i.good ()) { i.setstate (ios_base::failbit); return i; }
        for (;;)
        {
            int n = i.rdbuf ()->sbumpc ();
            if (n == -1) { i.setstate (ios_base::eofbit); break; }
            any = true;
            if ((char) n == delim) break;
            o.push_back ((char) n);
        }
        if (!any) i.setstate (ios_base::failbit);
        return i;
    }
    inline istream &getline (istream &i, string &o) { return getline (i, o, '\n'); }
    extern ostream cout, cerr;
    template<> class basic_iostream<char, char_traits<char>> : public istream, public ostream
    {
    public:
        explicit basic_iostream (streambuf *s) : istream (s), ostream (s) {}
    };
    template<> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public ostream
    {
    public:
        basic_ostringstream () : ostream (&t) {}
        string str () const { return t.get (); }
        void str (const string &s) { t.put (s); }
    private:
        sx_stringbuf t;
    };
    template<> class basic_istringstream<char, char_traits<char>, allocator<char>> : public istream
    {
    public:
        explicit basic_istringstream (const string &s) : istream (&t) { t.put (s); }
        string str () const { return t.get (); }
        void str (const string &s) { t.put (s); }
    private:
        sx_stringbuf t;
    };
    template<> class basic_stringstream<char, char_traits<char>, allocator<char>> : public iostream
    {
    public:
        basic_stringstream () : iostream (&t) {}
        explicit basic_stringstream (const string &s) : iostream (&t) { t.put (s); }
        string str () const { return t.get (); }
        void str (const string &s) { t.put (s); }
    private:
        sx_stringbuf t;
    };
}
#endif
