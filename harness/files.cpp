// C54: file_utils
#include "symx.h"
#include "file_utils.h"
#include <algorithm>
#include <filesystem>
#include <set>
#ifdef SYMX_NATIVE
#include <stdlib.h>
#include <unistd.h>
#endif
using namespace std;

static string Scratch()
{
#ifdef SYMX_NATIVE
    char t[] = "/tmp/symx-files-XXXXXX";
    if (!mkdtemp(t))
        abort();
    return t;
#else
    std::filesystem::create_directories("/scratch");
    return "/scratch";
#endif
}
static void Remove(const string& d, const vector<string>& names)
{
#ifdef SYMX_NATIVE
    for (auto& n: names)
        unlink((d + "/" + n).c_str());
    rmdir(d.c_str());
#endif
}
static void Touch(const string& name, const string& text = "x")
{
    ofstream f(name);
    f << text;
}
static string ReadAll(const string& name)
{
    ifstream f(name);
    string s((istreambuf_iterator<char>(f)), istreambuf_iterator<char>());
    return s;
}
static string Name(const char* n, size_t len)
{
    static const char A[] = "ab.-";
    string s;
    for (size_t i = 0; i < len; ++i)
        s += A[Pick(n, 0, symx_param("alpha", 3) - 1)];
    return s;
}
static bool Sub(const string& s, const string& p)
{
    for (size_t i = 0; i + p.size() <= s.size(); ++i)
        if (s.compare(i, p.size(), p) == 0)
            return true;
    return p.empty();
}

HARNESS h_iterate()
{
    string dir = Scratch();
    size_t n = Pick("n", 0, symx_param("files", 3));
    vector<string> names;
    for (size_t i = 0; i < n; ++i) {
        string s = Name("name", Pick("len", 1, symx_param("len", 2)));
        if (s == "." || s == ".." || find(names.begin(), names.end(), s) != names.end())
            symx_prune();
        names.push_back(s);
        Touch(dir + "/" + s);
    }
    string pat = Name("pat", Pick("plen", 0, symx_param("plen", 1)));
    size_t stop = Pick("stop", 0, n);
    vector<string> want;
    for (auto& s: names)
        if (Sub(s, pat))
            want.push_back(dir + "/" + s);
    sort(want.begin(), want.end());
    // plain iteration
    vector<string> seen;
    size_t c = 0;
    IterateDir(dir, [&](const string& s) {
        seen.push_back(s);
        return c++ == stop;
    });
    symx_assert(seen.size() == min(n, stop + 1), "iteration visits every entry until told to stop");
    for (size_t i = 0; i < seen.size(); ++i) {
        symx_assert(find(names.begin(), names.end(), seen[i]) != names.end(), "only entries of the directory are visited");
        symx_assert(find(seen.begin(), seen.begin() + i, seen[i]) == seen.begin() + i, "no entry is visited twice");
    }
    for (int sorted = 0; sorted < 2; ++sorted) {
        vector<string> got;
        c = 0;
        string r = IterateDirByPattern(
            dir,
            pat,
            [&](const string& s) {
                got.push_back(s);
                return c++ == stop;
            },
            sorted);
        symx_assert(got.size() == min(want.size(), stop + 1), "every entry with the pattern is offered until one is accepted");
        symx_assert(r == (stop < want.size() ? got.back() : string()), "the accepted entry is returned, or nothing");
        for (size_t i = 0; i < got.size(); ++i) {
            if (sorted) {
                symx_assert(got[i] == want[i], "sorted iteration goes in ascending order");
            } else {
                symx_assert(find(want.begin(), want.end(), got[i]) != want.end(), "only entries with the pattern are offered");
                symx_assert(find(got.begin(), got.begin() + i, got[i]) == got.begin() + i, "no entry is offered twice");
            }
        }
        symx_observe("got", got.size());
    }
    if (!want.empty())
        symx_reach("matched");
    symx_reach("done");
    Remove(dir, names);
}

HARNESS h_no_dir()
{
    string dir = Scratch();
    string name = dir + "/" + Name("name", 1);
    if (name == dir + "/.")
        symx_prune();
    bool file = symx_choose(SymBool("file"));
    if (file)
        Touch(name);
    int mode = (int)Pick("mode", 0, 2);
    bool called = false;
    auto fn = [&](const string&) {
        called = true;
        return true;
    };
    try {
        if (mode == 0)
            IterateDir(name, fn);
        else
            IterateDirByPattern(name, "", fn, mode == 2);
        symx_fail("iterating over something that is not a directory is reported");
    } catch (const TNoDirError&) {
        symx_reach("reported");
    }
    symx_assert(!called, "nothing is visited without a directory");
    Remove(dir, {name.substr(dir.size() + 1)});
}

HARNESS h_open()
{
    string dir = Scratch();
    vector<string> names = {"p", "q", "r"}, paths;
    size_t n = Pick("n", 0, 3);
    int first = -1;
    for (size_t i = 0; i < n; ++i) {
        paths.push_back(dir + "/" + names[i]);
        if (symx_choose(SymBool("exists"))) {
            Touch(paths[i], names[i] + names[i]);
            if (first < 0)
                first = (int)i;
        }
    }
    ifstream f;
    bool r = TryOpen(paths, f);
    symx_assert(r == (first >= 0), "a file is opened exactly if one of them exists");
    symx_assert(f.is_open() == r, "the stream is open exactly if a file was found");
    if (r) {
        string s((istreambuf_iterator<char>(f)), istreambuf_iterator<char>());
        symx_assert(s == names[first] + names[first], "the first existing file is opened");
        symx_reach("opened");
    } else {
        symx_reach("none");
    }
    if (n) {
        ifstream g;
        bool thrown = false;
        try {
            OpenWithException(g, paths[0]);
        } catch (const runtime_error&) {
            thrown = true;
        }
        symx_assert(thrown == (first != 0), "a file that cannot be opened is reported");
    }
    Remove(dir, names);
}

HARNESS h_write_file()
{
    string dir = Scratch();
    bool exists = symx_choose(SymBool("exists"));
    bool noDir = symx_choose(SymBool("no_dir"));
    string path = dir + (noDir ? "/none/f" : "/f");
    if (exists && !noDir)
        Touch(path, "old contents");
    string text = SymStr("t", Pick("n", 0, symx_param("n", 3)));
    bool thrown = false;
    try {
        WriteToFile(path, text);
    } catch (const runtime_error&) {
        thrown = true;
    }
    symx_assert(thrown == noDir, "failure to open the file is reported");
    if (!thrown) {
        symx_assert(ReadAll(path) == text, "the file holds exactly what was written");
        symx_reach("written");
    }
    Remove(dir, {"f"});
}
