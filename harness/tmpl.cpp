// C60 templates uploaded and removed by the user over RPC
#include "symx.h"
#include "rpc_exception.h"
#include "rpc_helpers.h"
#include "rpc_templates_handler.h"
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
using std::string;
// ---------------------------------------------------------------- faults of the file system and the places where the process may die
enum { NONE, OPEN, WRITE, RENAME, REMOVE, MKDIR };
static int FaultOp; // this operation fails
static bool Armed;
static std::function<void()> Crash; // called before every operation
static int OnOp(int op)
{
    if (!Armed)
        return 0;
    Armed = false;
    if (Crash)
        Crash();
    Armed = true;
    return op == FaultOp ? ENOSPC : 0;
}
static string ReadAll(const string& name)
{
    bool a = Armed;
    Armed = false;
    std::ifstream f(name);
    std::stringstream s;
    s << f.rdbuf();
    Armed = a;
    return s.str();
}
static bool ReadFails; // the next reading of a template fails
#ifdef SYMX_NATIVE
#include <dlfcn.h>
#include <stdio.h>
#include <sys/uio.h>
#include <unistd.h>
template<class F> static F Real(F, const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
extern "C" FILE* fopen(const char* n, const char* m)
{
    if (*m != 'r' && OnOp(OPEN))
        return errno = ENOSPC, nullptr;
    return Real(fopen, "fopen")(n, m);
}
extern "C" FILE* fopen64(const char* n, const char* m)
{
    if (*m != 'r' && OnOp(OPEN))
        return errno = ENOSPC, nullptr;
    return Real(fopen64, "fopen64")(n, m);
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (OnOp(WRITE))
        return errno = ENOSPC, -1;
    return Real(write, "write")(fd, p, n);
}
extern "C" ssize_t writev(int fd, const iovec* v, int n)
{
    if (OnOp(WRITE))
        return errno = ENOSPC, -1;
    return Real(writev, "writev")(fd, v, n);
}
extern "C" int rename(const char* a, const char* b)
{
    if (OnOp(RENAME))
        return errno = EIO, -1;
    return Real(rename, "rename")(a, b);
}
extern "C" int remove(const char* a)
{
    if (OnOp(REMOVE))
        return errno = EIO, -1;
    return Real((int (*)(const char*))remove, "remove")(a);
}
extern "C" int mkdir(const char* a, mode_t m)
{
    if (OnOp(MKDIR))
        return errno = EIO, -1;
    return Real(mkdir, "mkdir")(a, m);
}
static string Scratch()
{
    char t[] = "/tmp/symx-tmpl-XXXXXX";
    if (!mkdtemp(t))
        abort();
    return t;
}
#else
extern "C" int symx_fs_fault(int op, const char*)
{
    return OnOp(op);
}
static string Scratch()
{
    std::filesystem::create_directories("/scratch");
    return "/scratch";
}
#endif
// ---------------------------------------------------------------- what the handler uses
static Json::Value Config;
static bool ConfigBroken;
static Json::Value ParseText(const string& s)
{
    Json::CharReaderBuilder b;
    Json::Value v;
    string err;
    std::unique_ptr<Json::CharReader> r(b.newCharReader());
    if (!r->parse(s.data(), s.data() + s.size(), &v, &err))
        throw std::runtime_error("bad JSON");
    return v;
}
Json::Value WBMQTT::JSON::Parse(const string& name)
{
    if (name == "config") {
        if (ConfigBroken)
            throw std::runtime_error("no config");
        return Config;
    }
    if (name == "schema")
        return Json::Value(Json::objectValue);
    if (ReadFails) {
        ReadFails = false;
        throw std::runtime_error("can't read");
    }
    if (!std::filesystem::exists(name))
        throw std::runtime_error("no file");
    return ParseText(ReadAll(name));
}
Json::Value WBMQTT::JSON::ParseWithSettings(const string& name, const Json::Value&)
{
    return Parse(name);
}
void ValidateRPCRequest(const Json::Value&, const Json::Value&)
{}
Json::Value LoadRPCRequestSchema(const string&, const string&)
{
    return Json::Value(Json::objectValue);
}
static std::vector<string> Invalidated;
TDevicesConfedSchemasMap::TDevicesConfedSchemasMap(TTemplateMap& t, TSerialDeviceFactory& f, const Json::Value& c): TemplatesMap(t), CommonDeviceSchema(c), DeviceFactory(f)
{}
void TDevicesConfedSchemasMap::InvalidateCache(const string& type)
{
    Invalidated.push_back(type);
}
typedef std::map<string, string> TDir;
static TDir List(const string& dir)
{
    bool a = Armed;
    Armed = false;
    TDir res;
    if (std::filesystem::exists(dir))
        for (const auto& e: std::filesystem::directory_iterator(dir))
            res[e.path().filename().string()] = ReadAll(e.path().string());
    Armed = a;
    return res;
}
static void Write(const string& name, const string& text)
{
    std::ofstream f(name);
    f << text;
}
static string Text(const string& type, const string& title)
{
    return "{\"device_type\":\"" + type + "\",\"title\":\"" + title + "\",\"group\":\"g\",\"device\":{\"name\":\"" + title + "\",\"id\":\"x\",\"channels\":[]}}";
}
static string Title(TTemplateMap& m, const string& type)
{
    try {
        auto t = m.GetTemplate(type);
        auto name = t->GetTemplate()["name"].asString();
        symx_assert(t->GetTitle() == name, "the title of a template is that of its contents");
        return name;
    } catch (const std::exception&) {
        return "";
    }
}
struct TBench
{
    string Root = Scratch(), User = Root + "/user", Stock = Root + "/stock";
    PTemplateMap Map = std::make_shared<TTemplateMap>(Json::Value(Json::objectValue), User);
    Json::Value Common{Json::objectValue}, Groups{Json::objectValue};
    TSerialDeviceFactory Factory;
    TDevicesConfedSchemasMap Schemas{*Map, Factory, Common};
    std::unique_ptr<TRPCTemplatesHandler> Handler;
    bool HasDir = true;
    void MakeDirs(bool user)
    {
        std::filesystem::create_directories(Stock);
        HasDir = user;
        if (user)
            std::filesystem::create_directories(User);
    }
    void Start()
    {
        Invalidated.clear();
        Map->AddTemplatesDir(Stock);
        try {
            Map->AddTemplatesDir(User);
        } catch (const std::exception&) {
            symx_assert(!HasDir, "an existing directory is read");
        }
        Groups["en"]["g"] = "Group";
        Handler.reset(new TRPCTemplatesHandler(User, "config", Map, Schemas, Groups, "schema", "schema"));
    }
    ~TBench()
    {
        Armed = false;
        Crash = nullptr;
        FaultOp = NONE;
#ifdef SYMX_NATIVE
        std::filesystem::remove_all(Root);
#endif
    }
};
static void Use(int n)
{
    Config = Json::Value(Json::objectValue);
    Json::Value d(Json::objectValue), o(Json::objectValue), p(Json::objectValue), q(Json::objectValue);
    d["device_type"] = "T";
    o["device_type"] = "U";
    p["devices"].append(o);
    q["devices"].append(o);
    if (n == 1)
        p["devices"].append(d);
    if (n == 2)
        q["devices"].append(d);
    Config["ports"].append(p);
    Config["ports"].append(q);
}
static void CheckResponse(const Json::Value& r, const string& type, const string& title, bool user)
{
    symx_assert(r["types"].size() == 1 && r["types"][0]["name"].asString() == "Group" && r["types"][0]["types"].size() == 1, "the answer is a group of one type");
    const auto& t = r["types"][0]["types"][0];
    symx_assert(t["type"].asString() == type && t["name"].asString() == title && t["mqtt-id"].asString() == "x" && t.get("user-defined", false).asBool() == user, "the answer describes the template in use");
}
// C60: an upload and what happens to the files and to the templates in memory
HARNESS h_upload()
{
    TBench b;
    bool dir = symx_param("nodir", 0) ? Pick("dir", 0, 1) : true;
    b.MakeDirs(dir);
    // T: the type of the upload, U: another type
    bool stock = Pick("stock", 0, 1);
    if (stock)
        Write(b.Stock + "/t.json", Text("T", "stock"));
    Write(b.Stock + "/u.json", Text("U", "stock U"));
    int old = dir ? (int)Pick("old", 0, 2) : 0; // the template of the user: in a.json, in b.json
    static const char* names[] = {"", "a.json", "b.json", "a-1.json"};
    int other = dir ? (int)Pick("other", 0, 3) : 0; // another one of the user
    if (other == old)
        other = 0;
    if (old)
        Write(b.User + "/" + names[old], Text("T", "old"));
    if (other)
        Write(b.User + "/" + names[other], Text("V", "other"));
    b.Start();
    // it is used by a device of the configuration
    int used = (int)Pick("used", 0, 2);
    Use(used);
    ConfigBroken = false;
    bool force = Pick("force", 0, 1);
    int kind = symx_param("kinds", 0) ? (int)Pick("kind", 0, 8) : 0;
    string text = Text("T", "new");
    static const char* bad[] = {"", "{\"device_type\":\"T\",", "[1]", "{\"device\":{}}", "{\"device_type\":\"\",\"device\":{}}", "{\"device_type\":1,\"device\":{}}",
                                "{\"device_type\":\"T\",\"deprecated\":true,\"device\":{\"name\":\"d\",\"id\":\"x\",\"channels\":[]}}",
                                "{\"device_type\":\"T\",\"device\":{\"name\":\"d\",\"id\":\"x\",\"channels\":[{\"name\":\"c\",\"condition\":\"a==\"}]}}", ""};
    if (kind)
        text = bad[kind];
    Json::Value req(Json::objectValue);
    req["content"] = text;
    static const char* files[] = {"a.json", "a", "/etc/b.json", ""};
    int fn = (int)Pick("filename", 0, kind ? 0 : 3);
    req["filename"] = files[fn];
    if (force)
        req["force"] = true;
    auto before = List(b.User), stockBefore = List(b.Stock), root = List(b.Root);
    FaultOp = symx_param("faults", 0) ? (int)Pick("fault", 0, 5) : 0;
    bool noRead = symx_param("faults", 0) && !FaultOp && Pick("read", 0, 1);
    // wherever the process dies, the next start finds the old template or the new one, and the other files
    auto consistent = [&] {
        auto now = List(b.User);
        int olds = 0, news = 0;
        for (auto& f: now) {
            if (f.first.size() < 5 || f.first.substr(f.first.size() - 5) != ".json")
                continue;
            auto it = before.find(f.first);
            if (f.second == text)
                ++news;
            else
                symx_assert(it != before.end() && it->second == f.second, "at any moment a template file is complete");
            if (f.second == Text("T", "old"))
                ++olds;
        }
        symx_assert(olds + news >= (old ? 1 : 0) && news <= 1, "at any moment there is the old template or the new one");
        if (other)
            symx_assert(now.count(names[other]) && now[names[other]] == Text("V", "other"), "the other templates are never touched");
    };
    Crash = consistent;
    string was = Title(*b.Map, "T"), error;
    bool ok = true;
    Json::Value res;
    Armed = true;
    ReadFails = noRead;
    try {
        res = b.Handler->UploadTemplate(req);
    } catch (const std::exception& e) {
        ok = false;
        error = e.what();
    }
    Armed = ReadFails = false;
    Crash = nullptr;
    consistent();
    auto now = List(b.User);
    symx_assert(List(b.Stock) == stockBefore, "templates of the package are not changed");
    bool refused = kind || (used && !force) || fn == 3;
    if (ok) {
        symx_assert(!refused, "a bad template or one in use is refused");
        symx_assert(Title(*b.Map, "T") == "new", "the uploaded template is used from now on");
        CheckResponse(res, "T", "new", true);
        bool inv = false;
        for (auto& t: Invalidated)
            inv |= t == "T";
        symx_assert(inv, "the cached schema of the type is dropped");
        auto u = b.Map->FindUserDefinedTemplate("T");
        symx_assert(u && u->GetFilePath().compare(0, b.User.size() + 1, b.User + "/") == 0, "the uploaded template is in the directory of the user");
        string file = u->GetFilePath().substr(b.User.size() + 1);
        auto expected = before;
        if (old && FaultOp != REMOVE)
            expected.erase(names[old]);
        expected[file] = text;
        symx_assert(now == expected, "the template replaces that of its type and nothing else");
        string wanted = fn < 2 ? "a.json" : "b.json";
        bool free = !before.count(wanted) || (old && wanted == names[old]);
        symx_assert(free == (file == wanted), "the file has the requested name unless another template has it");
        // the next start
        TTemplateMap again(Json::Value(Json::objectValue), b.User);
        again.AddTemplatesDir(b.Stock);
        again.AddTemplatesDir(b.User);
        if (FaultOp != REMOVE)
            symx_assert(Title(again, "T") == "new", "the uploaded template is used after a restart");
        symx_reach("done");
    } else {
        symx_assert(refused || FaultOp || noRead, "a good template is accepted");
        if (used && !force && !kind)
            symx_assert(error == "template-in-use", "the reason of the refusal is reported");
        symx_assert(now == before, "a failed upload changes no file");
        symx_assert(Title(*b.Map, "T") == was, "a failed upload leaves the template in use");
        symx_reach(refused ? "refused" : "failed");
    }
    symx_assert(Title(*b.Map, "U") == "stock U" && (!other || Title(*b.Map, "V") == "other"), "templates of other types are not changed");
}
// C60: any file name
HARNESS h_filename()
{
    TBench b;
    b.MakeDirs(true);
    b.Start();
    Use(0);
    size_t n = Pick("len", 0, symx_param("hi", 2));
    string name;
    for (size_t i = 0; i < n; ++i)
        name += (char)Sym8("char");
    int tail = (int)Pick("tail", 0, 3);
    static const char* tails[] = {"", ".json", "/", "/x.json"};
    name += tails[tail];
    Json::Value req(Json::objectValue);
    req["content"] = Text("T", "new");
    req["filename"] = name;
    bool ok = true;
    try {
        b.Handler->UploadTemplate(req);
    } catch (const std::exception&) {
        ok = false;
    }
    string base = name;
    auto slash = base.rfind('/');
    if (slash != string::npos)
        base = base.substr(slash + 1);
    auto root = List(b.Root);
    symx_assert(root.size() == 2, "nothing appears outside the directory of the user");
    auto now = List(b.User);
    if (!ok) {
        symx_assert(base.empty() || base == ".json", "a name is accepted unless it is empty");
        symx_assert(now.empty(), "nothing is written if the name is refused");
        symx_reach("refused");
        return;
    }
    symx_assert(now.size() == 1, "one file is written");
    string f = now.begin()->first;
    symx_assert(f.size() > 5 && f.substr(f.size() - 5) == ".json", "the file is loaded at the next start");
    string want;
    for (char c: base)
        want += (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '_' || c == '-' ? c : '_';
    if (want.size() < 5 || want.substr(want.size() - 5) != ".json")
        want += ".json";
    symx_assert(f == want, "the name is the base name with safe characters");
    symx_reach("done");
}
// C60: removal of a template
HARNESS h_delete()
{
    TBench b;
    b.MakeDirs(true);
    bool stock = Pick("stock", 0, 1);
    if (stock)
        Write(b.Stock + "/t.json", Text("T", "stock"));
    int user = (int)Pick("user", 0, 2);
    if (user)
        Write(b.User + "/a.json", Text("T", "old"));
    if (user == 2)
        Write(b.User + "/b.json", Text("T", "newer"));
    Write(b.User + "/v.json", Text("V", "other"));
    b.Start();
    int used = (int)Pick("used", 0, 3);
    Use(used);
    ConfigBroken = used == 3;
    bool force = Pick("force", 0, 1);
    FaultOp = Pick("fault", 0, 1) ? REMOVE : NONE;
    bool gone = user && Pick("gone", 0, 1); // somebody has removed the file already
    auto file = b.User + (user == 2 ? "/b.json" : "/a.json");
    if (gone)
        std::filesystem::remove(file);
    Json::Value req(Json::objectValue);
    req["type"] = "T";
    if (force)
        req["force"] = true;
    auto before = List(b.User), stockBefore = List(b.Stock);
    string was = Title(*b.Map, "T"), error;
    Armed = true;
    bool ok = true;
    Json::Value res;
    try {
        res = b.Handler->DeleteTemplate(req);
    } catch (const std::exception& e) {
        ok = false;
        error = e.what();
    }
    Armed = false;
    auto now = List(b.User);
    symx_assert(List(b.Stock) == stockBefore && now["v.json"] == Text("V", "other") && Title(*b.Map, "V") == "other", "nothing else is removed");
    bool inUse = (used == 1 || used == 2) && !force;
    if (ok) {
        symx_assert(user && !inUse, "only a template of the user that is not in use is removed");
        auto expected = before;
        expected.erase(user == 2 ? "b.json" : "a.json");
        symx_assert(now == expected, "the file of the template is removed");
        string left = user == 2 ? "old" : stock ? "stock" : "";
        symx_assert(Title(*b.Map, "T") == left, "the next template of the type is used");
        if (left.empty())
            symx_assert(res["types"].isArray() && res["types"].empty(), "no template of the type is left");
        else
            CheckResponse(res, "T", left, user == 2);
        bool inv = false;
        for (auto& t: Invalidated)
            inv |= t == "T";
        symx_assert(inv, "the cached schema of the type is dropped");
        symx_reach(left.empty() ? "nothing left" : "done");
    } else {
        symx_assert(!user || inUse || FaultOp, "a template of the user can be removed");
        if (user && inUse)
            symx_assert(error == "template-in-use", "the reason of the refusal is reported");
        symx_assert(now == before && Title(*b.Map, "T") == was, "a failed removal changes nothing");
        symx_reach(FaultOp ? "failed" : "refused");
    }
}
