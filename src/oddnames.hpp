#pragma once
#include "mc.hpp"
// names: every byte at every kind of place, pairs of bytes that mean something, words that mean something to somebody
inline const V<S> &odd_names()
{
    static const V<S> pool = [] {
        V<S> v; int k = 0; auto id = [&] { return "z" + std::to_string(k++); };
        for (int b = 1; b < 256; b++) {
            if (b == '/') continue;
            S c(1, (char)b);
            v.push_back(c); v.push_back(c + id()); v.push_back(c + id() + " y"); v.push_back(c + c + id() + " y"); v.push_back(id() + " y" + c); v.push_back(id() + c); v.push_back(id() + c + "q y"); v.push_back(id() + " y" + c + c + c);
        }
        for (const char *a : {"~", "#", "-", "_", ".", "%", "\n", "\r", "\t", " ", "\\", "\"", "'", "\xc3", "\xe2\x80", "\xff", "$", "&", ":", ">", "*", "(", "+", "="})
            for (const char *b : {"~", "#", "-", "_", ".", "%", "\n", "\r", "\t", " ", "\\", "\"", "'", "\xa9", "\x94", "\xff", "$", "&", ":", ">", "*", "(", "n", "0"}) {
                v.push_back(id() + a + b + "x y"); v.push_back(S(a) + b + id() + " y"); v.push_back(id() + " y" + a + b);
            }
        for (S w : {"core", "core.1", "~", "x~", "#x#", ".#x", "%s", "%n%n%n", "%d%s%x", "%%", "%2e%2e", "-r", "-n", "--", "--help", "-", "x.swp", ".x.swp", "x.tmp", "x.part", "x.o", "x.lock", "x.bak", "lost+found", ".git", ".svn", "CVS", "CVSROOT", "{arch}",
                    "a -> b", "->", "a\nb", "\n", "a\r\n", "$(x)", "`x`", "..a", "a..", "...", ".. .", ". ..", ".. ", " ..", "....", "?", "*", "[a]", "\\", "\\n", "\\x20", "&#39;", "&amp;", "con", "nul", "NUL", "aux.h", "0", "1234", "00", "1e5", "0x41", "null", "(null)", "nan", "true",
                    "\xef\xbb\xbf" "a", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\x80", "\xfe\xff", "\xe2\x80\xae" "b", "\xc2\xa0", "e\xcc\x81", "\xc3\x89", "default", "safe", "detox", "detoxrc", ".detoxrc", "a:b", "a;b", "a,b", "a=b", "C:\\x", "file:x", "x.tar.gz", "README", "Makefile", "INBOX", "desktop.ini", "Thumbs.db", ".DS_Store", ".nfs0001", ".fuse_hidden1",
                    "Icon\r", "a b c d e f g h i j k l m n o p", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "AAAA", "Cannot rename", "Scanning: x", "\x1b[31m", "\a", "\b\b", "\x7f"})
            for (S x : {w, w + " ", " " + w, w + " x", "x " + w, w + w}) v.push_back(x);
        for (int n : {5, 20, 31, 32, 33, 40, 64, 65, 100, 127, 129, 200, 240}) for (const char *f : {"-", "_", "#", "-_#", ".", " ", "_ ", "- #", "?"}) { S x; while ((int)x.size() < n) x += f; for (S y : {x + id(), id() + x, id() + x + "y", id() + x + ".c", x + "-" + id()}) v.push_back(y); }
        return v;
    }();
    return pool;
}
