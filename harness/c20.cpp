// Checkpoints (with crashes after any number of written bytes), truncated output files, line reader,
// option files and headers of the programs.  All files live in a scratch directory of the scenario.
#include <dlfcn.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>

#include "include/application.hpp"
#include "include/checkpoint.hpp"
#include "include/common.hpp"
#include "rec.hpp"

using namespace std;

// ---- crash after a number of bytes written through write()/writev() (that is: by file streams)
static long budget = -1;
static long spent  = 0;
static bool counting = false;

extern "C" ssize_t write(int fd, const void* buf, size_t n)
{
    static auto real = reinterpret_cast<ssize_t (*)(int, const void*, size_t)>(dlsym(RTLD_NEXT, "write"));
    if(counting && fd > 2) {
        if(budget >= 0 && spent + static_cast<long>(n) > budget) {
            if(budget > spent) {
                real(fd, buf, static_cast<size_t>(budget - spent));
            }
            _exit(99);
        }
        spent += static_cast<long>(n);
    }
    return real(fd, buf, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    ssize_t total = 0;
    for(int i = 0; i < c; ++i) {
        const char* p = static_cast<const char*>(v[i].iov_base);
        size_t left   = v[i].iov_len;
        while(left > 0) {
            const ssize_t r = write(fd, p, left);
            if(r < 0) {
                return total > 0 ? total : r;
            }
            p += r;
            left -= static_cast<size_t>(r);
            total += r;
        }
    }
    return total;
}

struct Scratch {
    string dir;
    Scratch()
    {
        const char* base = getenv("TMPDIR");
        string t         = string(base ? base : "/tmp") + "/verif-c20-XXXXXX";
        vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if(!mkdtemp(b.data())) {
            perror("mkdtemp");
            _exit(3);
        }
        dir = b.data();
    }
    static int rm(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
    ~Scratch() { nftw(dir.c_str(), rm, 8, FTW_DEPTH | FTW_PHYS); }
    string operator()(const string& f) const { return dir + "/" + f; }
};

// run f in a child of its own; exit status, or -signal
template <typename F>
int isolated(F f, unsigned cpu = 5)
{
    fflush(rec::st().out);
    const pid_t p = fork();
    if(p == 0) {
        struct rlimit rl;
        rl.rlim_cur = cpu;
        rl.rlim_max = cpu + 1;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 2ul << 30;
        setrlimit(RLIMIT_AS, &rl);
        int rc = 0;
        try {
            rc = f();
        } catch(const std::exception&) {
            rc = 98;
        }
        _exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

bool read_file(const string& path, string& text)
{
    ifstream f(path.c_str(), ios::binary);
    if(!f) return false;
    stringstream s;
    s << f.rdbuf();
    text = s.str();
    return true;
}

using Vec = blaze::DynamicVector<complex<double>>;
// a number by its bits
string bits(double x)
{
    if(x != x) return rec::str("nan");
    uint64_t u;
    memcpy(&u, &x, sizeof u);
    char b[32];
    snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(u));
    return rec::str(b);
}
string vec_json(const Vec& v)
{
    vector<string> r;
    for(size_t i = 0; i < v.size(); ++i) r.push_back("[" + bits(v[i].real()) + "," + bits(v[i].imag()) + "]");
    string s = "[";
    for(size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + r[i];
    return s + "]";
}

void silent_loggers()
{
    get_loggers().init("/dev/null");
}

string saved_json(const vector<Vec>& vecs, const vector<double>& times)
{
    string saved = "[";
    for(size_t i = 0; i < vecs.size(); ++i) {
        saved += string(i ? "," : "") + "{\"t\":" + bits(times[i]) + ",\"vec\":" + vec_json(vecs[i]) + "}";
    }
    return saved + "]";
}

// old: checkpoints that an older run has left under the same names
void crash_history(const vector<Vec>& vecs, const vector<double>& times, long bytes, const vector<Vec>& old = {},
                   const vector<double>& old_times = {})
{
    Scratch dir;
    if(!old.empty()) {
        isolated([&]() {
            silent_loggers();
            for(size_t i = 0; i < old.size(); ++i) write_checkpoint_file(dir("c_"), old[i], old_times[i]);
            return 0;
        });
    }
    auto* done = static_cast<volatile long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    done[0] = 0;
    done[1] = 0;
    const int rc = isolated([&]() {
        silent_loggers();
        budget   = bytes;
        counting = true;
        for(size_t i = 0; i < vecs.size(); ++i) {
            write_checkpoint_file(dir("c_"), vecs[i], times[i]);
            done[0] = static_cast<long>(i + 1);
            done[1] = spent;
        }
        return 0;
    });
    string found = "[";
    for(size_t i = 0; i < max(vecs.size(), old.size()) + 1; ++i) {
        string text;
        string info = "[]";
        if(read_file(dir("c_" + to_string(i) + ".info"), text) && !text.empty()) {
            istringstream s(text);
            double t = -1.;
            s >> t;
            info = "[" + bits(t) + "]";
        }
        string v = "[]";
        ifstream there(dir("c_" + to_string(i) + ".blaze").c_str());
        if(there) {
            Vec x;
            string path = dir("c_" + to_string(i) + ".blaze");
            string tmp  = dir("vec.json");
            if(isolated([&]() {
                   silent_loggers();
                   read_checkpoint_file(path, x);
                   ofstream o(tmp.c_str());
                   o << vec_json(x);
                   o.close();
                   return 0;
               })
               == 0) {
                read_file(tmp, v);
                v = "[" + v + "]";
            }
        }
        found += string(i ? "," : "") + "{\"info\":" + info + ",\"vec\":" + v + "}";
    }
    found += "]";
    rec::Ev("checkpoints").raw("saved", saved_json(vecs, times)).raw("old", saved_json(old, old_times)).kv("returned", static_cast<long>(done[0])).kv("crashed", rc == 99).kv("normal", rc == 0).kv("bytes", bytes).raw("found", found);
    munmap(const_cast<long*>(done), 4096);
}

long total_bytes(const vector<Vec>& vecs, const vector<double>& times)
{
    Scratch dir;
    auto* n = static_cast<volatile long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    isolated([&]() {
        silent_loggers();
        counting = true;
        for(size_t i = 0; i < vecs.size(); ++i) write_checkpoint_file(dir("c_"), vecs[i], times[i]);
        n[0] = spent;
        return 0;
    });
    const long r = n[0];
    munmap(const_cast<long*>(n), 4096);
    return r;
}

string chars(const string& s)
{
    return rec::list(s, [](char c) { return to_string(static_cast<unsigned char>(c)); });
}
vector<string> split(const string& t)
{
    vector<string> r;
    string cur;
    for(char c : t) {
        if(c == '\n') {
            r.push_back(cur);
            cur.clear();
        } else {
            cur += c;
        }
    }
    if(!cur.empty()) r.push_back(cur);
    return r;
}
string lines_json(const vector<string>& l) { return rec::list(l, [](const string& s) { return chars(s); }); }

// several files are cleaned, or streams read, by one process one after the other; numbers of entries beyond a thousand
// million are recorded as that
void truncate_files(const vector<pair<string, uint64_t>>& files)
{
    Scratch dir;
    const auto path = [&dir](size_t i) { return dir("out" + to_string(i) + ".txt"); };
    for(size_t i = 0; i < files.size(); ++i) {
        ofstream o(path(i).c_str(), ios::binary);
        o << files[i].first;
    }
    const int rc = isolated([&]() {
        silent_loggers();
        for(size_t i = 0; i < files.size(); ++i) {
            clean_output_file(path(i), files[i].second);
            ofstream(dir("done" + to_string(i)).c_str()) << "1";
        }
        return 0;
    }, 2);
    for(size_t i = 0; i < files.size(); ++i) {
        string now, bak, done;
        read_file(path(i), now);
        read_file(path(i) + ".bak", bak);
        const bool normal = rc == 0 || (read_file(dir("done" + to_string(i)), done) && done == "1");
        rec::Ev("truncate").raw("lines", lines_json(split(files[i].first))).kv("entries", min<uint64_t>(files[i].second, 1000000000)).kv("normal", normal).raw("now", lines_json(split(now))).raw("bak", lines_json(split(bak)));
        if(!normal) break;
    }
}
void truncate_file(const string& text, uint64_t entries) { truncate_files({{text, entries}}); }

// one file is cleaned several times
void truncate_again(const string& text, const vector<uint64_t>& entries)
{
    Scratch dir;
    const string path = dir("out.txt");
    ofstream(path.c_str(), ios::binary) << text;
    for(auto n : entries) {
        string before, now, bak;
        read_file(path, before);
        const int rc = isolated([&]() {
            silent_loggers();
            clean_output_file(path, n);
            return 0;
        }, 2);
        read_file(path, now);
        read_file(path + ".bak", bak);
        rec::Ev("truncate").raw("lines", lines_json(split(before))).kv("entries", min<uint64_t>(n, 1000000000)).kv("normal", rc == 0).raw("now", lines_json(split(now))).raw("bak", lines_json(split(bak)));
        if(rc != 0) break;
    }
}

void read_lines(const vector<pair<string, long>>& texts)
{
    Scratch dir;
    const int rc = isolated([&]() {
        for(size_t k = 0; k < texts.size(); ++k) {
            istringstream s(texts[k].first);
            ofstream o(dir("got" + to_string(k)).c_str());
            for(long i = 0; i < texts[k].second; ++i) o << (i ? "," : "") << chars(ieompp::io::next_line(s));
            o.close();
            ofstream(dir("done" + to_string(k)).c_str()) << "1";
        }
        return 0;
    }, 2);
    for(size_t k = 0; k < texts.size(); ++k) {
        string r, done;
        read_file(dir("got" + to_string(k)), r);
        const bool normal = rc == 0 || (read_file(dir("done" + to_string(k)), done) && done == "1");
        rec::Ev("nextlines").raw("lines", lines_json(split(texts[k].first))).kv("calls", texts[k].second).kv("normal", normal).raw("got", "[" + (normal ? r : string()) + "]");
        if(!normal) break;
    }
}
void read_lines(const string& text, long calls) { read_lines({{text, calls}}); }

// ---- options: numbers are given times 64; strings as they are
struct Setting {
    string key;
    string canonical; // as recorded
    string text;      // as written on a command line
};
const vector<string> KEYS{"N", "J", "dt", "tag", "note", "count", "Nx", "J_nn", "dt_out"};
const vector<pair<string, string>> DEFAULTS{{"N", "16"}, {"J", "64"}, {"dt", "8"}, {"tag", "plain"}, {"note", "a (default) note with words"}, {"count", "100"}, {"Nx", "5"}, {"J_nn", "32"}, {"dt_out", "128"}};

string number_text(long n64)
{
    ostringstream s;
    s.precision(17);
    s << static_cast<double>(n64) / 64.;
    return s.str();
}
Setting setting(const string& key, rec::Rng& r)
{
    if(key == "N" || key == "count" || key == "Nx") {
        const string n = to_string(r.in(0, 5000));
        return {key, n, n};
    }
    if(key == "tag" || key == "note") {
        static const vector<string> tags{"x", "a b", "x=y", "--N=3", "#c", "-1", "q w  e", "7", "\"z\"", "(=3)", "a.b/c"};
        if(r.in(0, 2) == 0) { // long values, words of any length
            static const string letters = "abc xyz=-#.";
            string t = "v";
            for(long n = r.in(30, r.flip() ? 150 : 3000); n > 0; --n) t += letters[static_cast<size_t>(r.in(0, 10))];
            t += "e";
            return {key, t, t};
        }
        const string t = r.pick(tags);
        return {key, t, t};
    }
    const long n = r.in(-2000, 2000);
    return {key, to_string(n), number_text(n)};
}
string settings_json(const vector<Setting>& s)
{
    return rec::list(s, [](const Setting& x) { return "[" + rec::str(x.key) + "," + rec::str(x.canonical) + "]"; });
}
string canonical(const string& key, const string& text)
{
    if(key == "J" || key == "dt" || key == "J_nn" || key == "dt_out") {
        char* end      = nullptr;
        const double d = strtod(text.c_str(), &end);
        if(end == text.c_str() || *end) return "?" + text;
        return to_string(lround(d * 64.));
    }
    return text;
}

// one run of a program; `response`: path or empty
void run_program(const Scratch& dir, long id, const vector<Setting>& cli, const string& response, long from, bool logname, bool absent = false)
{
    const string out = dir("run" + to_string(id) + ".dat");
    const string tmp = dir("vars" + to_string(id));
    if(id % 2 == 0) { // files of an older run with other options, longer than the new ones
        ofstream old(out.c_str());
        old << "# program     \tolder\n#\n# CLI options:\n#\tN = 777\n#\ttag = older\n";
        for(int i = 0; i < 200; ++i) old << "1\t2\n9\t9\n";
        if(response.empty()) {
            ofstream rsp(dir("run" + to_string(id) + ".rsp").c_str());
            rsp << "--N=777\n--count=778\n--tag=older\n";
            for(int i = 0; i < 20; ++i) rsp << "--note=older note " << i << "\n";
        }
    }
    const int rc     = isolated([&]() {
        if(logname) {
            setenv("LOGNAME", "verif", 1);
        } else {
            unsetenv("LOGNAME");
        }
        Application::name        = "c20";
        Application::description = "driver";
        Application::add_default_options();
        // clang-format off
        Application::options_description.add_options()
            ("N", make_value<uint64_t>(16), "sites")
            ("J", make_value<double>(1.), "hopping")
            ("dt", make_value<double>()->default_value(0.125), "step")
            ("tag", make_value<string>("plain"), "text")
            ("note", make_value<string>("a (default) note with words"), "words")
            ("count", make_value<uint64_t>()->default_value(100), "count")
            ("Nx", make_value<uint64_t>(5), "columns")
            ("J_nn", make_value<double>(0.5), "hopping")
            ("dt_out", make_value<double>(2.), "interval");
        // clang-format on
        vector<string> args{"c20", "--out=" + out};
        for(const auto& s : cli) args.push_back("--" + s.key + "=" + s.text);
        if(!response.empty()) args.push_back("--response_file=" + response);
        vector<char*> argv;
        for(auto& a : args) argv.push_back(&a[0]);
        argv.push_back(nullptr);
        Application app(static_cast<int>(args.size()), argv.data());
        ofstream o(tmp.c_str());
        const auto whole = [&app](const string& k) { return rec::str(to_string(app.variables[k].as<uint64_t>())); };
        const auto real  = [&app](const string& k) { return rec::str(to_string(lround(app.variables[k].as<double>() * 64.))); };
        o << "[";
        for(const auto& k : KEYS) {
            const bool w = k == "N" || k == "count" || k == "Nx";
            o << (k == "N" ? "" : ",") << "[" << rec::str(k) << "," << (k == "tag" || k == "note" ? rec::str(app.variables[k].as<string>()) : w ? whole(k) : real(k)) << "]";
        }
        o << "]";
        o.close();
        app.output_file << "1\t2\n";
        return 0;
    });
    if(absent) {
        rec::Ev("missing").kv("reported", rc > 0).kv("rc", static_cast<long>(rc));
        return;
    }
    string vars = "[]", header;
    read_file(tmp, vars);
    read_file(out, header);
    // header: lines "#\tkey = value" after "# CLI options:"
    string head = "[";
    bool first = true, on = false;
    for(const auto& l : split(header)) {
        if(l.find("CLI options") != string::npos) {
            on = true;
            continue;
        }
        const auto e = l.find(" = ");
        if(on && l.size() > 2 && l[0] == '#' && e != string::npos) {
            const string key = l.substr(2, e - 2);
            if(find(KEYS.begin(), KEYS.end(), key) == KEYS.end()) continue;
            head += string(first ? "" : ",") + "[" + rec::str(key) + "," + rec::str(canonical(key, l.substr(e + 3))) + "]";
            first = false;
        }
    }
    head += "]";
    string rest = header.size() >= 4 ? header.substr(header.size() - 4) : "";
    string dummy;
    rec::Ev("run").kv("id", id).raw("cli", settings_json(cli)).kv("from", from).kv("normal", rc == 0).raw("vars", vars).raw("header", head).kv("row", rest == "1\t2\n").kv("wrote", read_file(dir("run" + to_string(id) + ".rsp"), dummy));
}

// matrices written one after the other, some to the same path, and read back at the end
using Sparse = blaze::CompressedMatrix<complex<double>, blaze::rowMajor>;
string sparse_json(const Sparse& m)
{
    string r;
    for(size_t i = 0; i < m.rows(); ++i) {
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            r += string(r.empty() ? "" : ",") + "[" + to_string(i) + "," + to_string(it->index()) + "," + bits(it->value().real()) + "," + bits(it->value().imag()) + "]";
        }
    }
    return "{\"rows\":" + to_string(m.rows()) + ",\"columns\":" + to_string(m.columns()) + ",\"entries\":[" + r + "]}";
}
void matrix_files(rec::Rng& r, long count)
{
    Scratch dir;
    vector<Sparse> ms;
    vector<long> slots;
    for(long k = 0; k < count; ++k) {
        const long rows = r.in(0, r.flip() ? 6 : 90), cols = r.in(0, 6) ? r.in(1, 40) : rows;
        Sparse m(static_cast<size_t>(rows), static_cast<size_t>(cols));
        if(rows > 0 && cols > 0) {
            for(long n = r.in(0, 3 * rows); n > 0; --n) {
                m.set(static_cast<size_t>(r.in(0, rows - 1)), static_cast<size_t>(r.in(0, cols - 1)), complex<double>(static_cast<double>(r.in(-99, 99)) / 7., r.flip() ? 0. : static_cast<double>(r.in(-99, 99)) * 1e-200));
            }
        }
        ms.push_back(m);
        slots.push_back(r.in(0, 2));
    }
    const auto path = [&dir](long s) { return dir("m" + to_string(s) + "_matrix.blaze"); };
    const int rc    = isolated([&]() {
        silent_loggers();
        for(size_t k = 0; k < ms.size(); ++k) write_matrix_file(path(slots[k]), ms[k]);
        return 0;
    });
    string wrote = "[", found = "[";
    for(size_t k = 0; k < ms.size(); ++k) wrote += string(k ? "," : "") + "{\"slot\":" + to_string(slots[k]) + ",\"matrix\":" + sparse_json(ms[k]) + "}";
    for(long s = 0; s < 3; ++s) {
        string x;
        isolated([&]() {
            ifstream in(path(s).c_str(), ios::binary);
            if(!in) return 0;
            blaze::Archive<ifstream> archive(in);
            Sparse m;
            archive >> m;
            ofstream(dir("back" + to_string(s)).c_str()) << sparse_json(m);
            return 0;
        });
        read_file(dir("back" + to_string(s)), x);
        found += string(s ? "," : "") + "[" + x + "]";
    }
    rec::Ev("matrices").kv("normal", rc == 0).raw("wrote", wrote + "]").raw("found", found + "]");
}

// the files of one run, by the path of its output
void beside(const string& sub, const string& stem, const string& ext)
{
    Scratch dir;
    string where = dir.dir;
    istringstream parts(sub);
    for(string part; getline(parts, part, '/');) {
        where += "/" + part;
        mkdir(where.c_str(), 0700);
    }
    const string out = where + "/" + stem + ext;
    const string tmp = dir("names");
    const int rc     = isolated([&]() {
        Application::name        = "c20";
        Application::description = "driver";
        Application::add_default_options();
        string o = "--out=" + out;
        char self[] = "c20";
        char* argv[] = {self, &o[0], nullptr};
        Application app(2, argv);
        app.output_file << "1\t2\n";
        ofstream f(tmp.c_str());
        const string root = dir.dir + "/";
        f << "[";
        for(const auto& p : {app.output_path, app.response_path, app.log_path, app.matrix_path, app.checkpoint_prefix}) {
            f << (p == app.output_path ? "" : ",") << rec::str(p.compare(0, root.size(), root) == 0 ? p.substr(root.size()) : "?" + p);
        }
        f << "]";
        return 0;
    });
    string names = "[]", dummy;
    read_file(tmp, names);
    const bool there = read_file(out, dummy) && dummy.size() > 4 && dummy.substr(dummy.size() - 4) == "1\t2\n";
    rec::Ev("beside").kv("normal", rc == 0).kv("base", sub + (sub.empty() ? "" : "/") + stem).kv("ext", ext).raw("names", names.empty() ? "[]" : names).kv("row", there).kv("response", read_file(where + "/" + stem + ".rsp", dummy));
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    long salt     = 0;
    // ---- checkpoints
    for(long k = 0; k < (th ? 60 : 10); ++k) {
        ++salt;
        rec::scenario("checkpoints-" + to_string(k), [=]() {
            rec::Rng r(salt);
            vector<Vec> vecs;
            vector<double> times;
            const long n = r.in(1, 4);
            for(long i = 0; i < n; ++i) {
                const bool big = k % 5 == 4 && i == n - 1;
                Vec v(static_cast<size_t>(big ? r.in(600, 1300) : r.in(0, 6)));
                const auto number = [&r]() {
                    switch(r.in(0, 3)) {
                        case 0: return static_cast<double>(r.in(-500, 500)) / 64.;
                        case 1: return static_cast<double>(r.in(-100000, 100000)) / 3.;
                        case 2: return static_cast<double>(r.in(-1000, 1000)) * 0.1;
                        default: return static_cast<double>(r.in(1, 1000)) / 7. * pow(10., static_cast<double>(r.in(-200, 200)));
                    }
                };
                for(size_t j = 0; j < v.size(); ++j) v[j] = complex<double>(number(), number());
                vecs.push_back(v);
                // accumulated, fractional and short times
                double t = 0.;
                for(long s = r.in(1, 200) * (i > 0); s > 0; --s) t += 0.1;
                if(r.in(0, 3) == 0) t = static_cast<double>(r.in(1, 3000) + 4000 * i) / 3.;
                if(r.in(0, 3) == 0) t = static_cast<double>(r.in(0, 3000) + 4000 * i) / 8.;
                if(r.in(0, 7) == 0) t = static_cast<double>(r.in(1, 3000)) * 1e9 / 7.;
                if(r.in(0, 5) == 0) t = static_cast<double>(r.in(1, 3000)) / 7. * pow(10., static_cast<double>(r.in(-200, 200)));
                times.push_back(t);
            }
            crash_history(vecs, times, -1);
            const long total = total_bytes(vecs, times);
            const bool big   = total > 3000;
            const long tries = th ? 60 : 25;
            for(long t = 0; t < tries; ++t) {
                const long b = !big && total < tries ? t : r.in(0, total);
                crash_history(vecs, times, b);
                if(big && t > 4) break;
            }
        });
    }
    // ---- a run over the files of an older one
    for(long k = 0; k < (th ? 30 : 6); ++k) {
        ++salt;
        rec::scenario("older-checkpoints-" + to_string(k), [=]() {
            rec::Rng r(salt);
            const auto make = [&r](long n, double sign, vector<Vec>& vecs, vector<double>& times) {
                for(long i = 0; i < n; ++i) {
                    Vec v(static_cast<size_t>(r.in(1, 9)));
                    for(size_t j = 0; j < v.size(); ++j) v[j] = complex<double>(static_cast<double>(r.in(-99, 99)) / 3., sign);
                    vecs.push_back(v);
                    times.push_back(sign * (static_cast<double>(i) + 1.) / 7.);
                }
            };
            vector<Vec> vecs, old;
            vector<double> times, old_times;
            make(r.in(1, 3), 1., vecs, times);
            make(r.in(1, 4), -1., old, old_times);
            crash_history(vecs, times, -1, old, old_times);
            const long total = total_bytes(vecs, times);
            for(long t = 0; t < (th ? 40 : 15); ++t) crash_history(vecs, times, t < 3 ? t : r.in(0, total - 1), old, old_times);
        });
    }
    // ---- many checkpoints of one run
    for(long n : th ? vector<long>{300, 1100} : vector<long>{290}) {
        ++salt;
        rec::scenario("many-checkpoints-" + to_string(n), [=]() {
            rec::Rng r(salt);
            vector<Vec> vecs;
            vector<double> times;
            for(long i = 0; i < n; ++i) {
                Vec v(1);
                v[0] = complex<double>(static_cast<double>(i), static_cast<double>(r.in(-9, 9)) / 3.);
                vecs.push_back(v);
                times.push_back(static_cast<double>(i) * 0.1);
            }
            crash_history(vecs, times, -1);
            vector<Vec> old(40, Vec(2));
            vector<double> old_times;
            for(long i = 0; i < 40; ++i) old_times.push_back(-1. - static_cast<double>(i));
            crash_history(vecs, times, -1, old, old_times);
            const long total = total_bytes(vecs, times);
            for(long b : {total - 1, total - total / 40, r.in(total / 2, total - 1)}) crash_history(vecs, times, b);
        });
    }
    // ---- files
    static const vector<string> pool{"", "# comment", "   # indented", "\t", "  ", "#", "1\t2", "0.5\t-1.25e-3", "x # not a comment", " 7", "#1\t2", "\t# tab", "0", "-1\t0", "1\t2", "\r", "\v\f", " \r# carriage", "3\t4\r", "# end\r", "#a\rb", string("7\t\0\t8", 5), string("# \0x", 4), string("9\0", 2)};
    const auto text_of = [](rec::Rng& r, bool trailing) {
        string t;
        const long n = r.in(0, 14);
        for(long i = 0; i < n; ++i) t += (i ? "\n" : "") + r.pick(pool);
        if(n > 0 && trailing) t += "\n";
        return t;
    };
    for(long k = 0; k < (th ? 40 : 8); ++k) {
        ++salt;
        rec::scenario("files-" + to_string(k), [=]() {
            rec::Rng r(salt);
            for(int i = 0; i < 25;) {
                vector<pair<string, uint64_t>> files;
                vector<pair<string, long>> streams;
                for(long j = r.in(1, 5); j > 0; --j, ++i) {
                    static const vector<uint64_t> vast{1ull << 32, (1ull << 32) + 3, 1ull << 31, 65536, 65538, ~0ull, 1ull << 63, 256, (1ull << 40) + 1};
                    files.emplace_back(text_of(r, r.in(0, 4) > 0), r.in(0, 5) ? static_cast<uint64_t>(r.in(0, 9)) : r.pick(vast));
                    streams.emplace_back(text_of(r, r.flip()), r.in(1, 16));
                }
                truncate_files(files);
                if(i % 2) truncate_again(text_of(r, true), {static_cast<uint64_t>(r.in(3, 9)), static_cast<uint64_t>(r.in(1, 5)), static_cast<uint64_t>(r.in(0, 3))});
                read_lines(streams);
            }
        });
    }
    // ---- many lines, and long ones
    for(long k = 0; k < (th ? 8 : 2); ++k) {
        ++salt;
        rec::scenario("long-files-" + to_string(k), [=]() {
            rec::Rng r(salt);
            string t;
            const long n = r.in(280, 340);
            for(long i = 0; i < n; ++i) t += (r.in(0, 9) == 0 ? r.pick(pool) : to_string(i) + "\t" + to_string(r.in(-5, 5))) + "\n";
            truncate_file(t, static_cast<uint64_t>(r.in(256, 275)));
            read_lines(t, n + 3);
            // long blocks of comments
            static const vector<string> quiet{"", "#", "# a\t1", " \t", "\r", "  # b"};
            string c;
            for(long block : {r.in(60, 140), r.in(257, 330), 3l, r.in(200, 256)}) {
                for(long i = 0; i < block; ++i) c += r.pick(quiet) + "\n";
                c += to_string(block) + "\t0\n";
            }
            for(long k = 1; k < 5; ++k) truncate_file(c, static_cast<uint64_t>(k));
            read_lines(c, 6);
            string w;
            for(int i = 0; i < 6; ++i) {
                const long len = r.in(500, 3000);
                w += r.flip() ? "#" : r.flip() ? " \t" : "";
                for(long j = 0; j < len; ++j) w += static_cast<char>(j % 17 == 16 ? '\t' : '0' + (i + j) % 10);
                w += "\n" + r.pick(pool) + "\n";
            }
            truncate_file(w, static_cast<uint64_t>(r.in(2, 5)));
            read_lines(w, 14);
            // very long lines are recorded without repetitions of a character
            static const vector<string> shapes{"#x", " ", "\t #x", "1 x", " 2", "# ", "-x", "\r", "#\r"};
            for(const auto& shape : shapes) {
                string line;
                for(char c : shape) line += string(static_cast<size_t>(r.in(100000, 300000)), c);
                const int rc = isolated([&]() {
                    istringstream strm(line + "\n0\n");
                    const bool skipped = ieompp::io::is_skippable_line(line);
                    const string got   = ieompp::io::next_line(strm);
                    return got != (skipped ? "0" : line) ? 3 : skipped ? 2 : 1;
                });
                rec::Ev("huge").raw("shape", chars(shape)).kv("normal", rc == 1 || rc == 2).kv("skipped", rc == 2);
            }
        });
    }
    // ---- matrices and names
    for(long k = 0; k < (th ? 20 : 4); ++k) {
        ++salt;
        rec::scenario("matrices-" + to_string(k), [=]() {
            rec::Rng r(salt);
            for(long i = 0; i < 5; ++i) matrix_files(r, r.in(1, 4));
        });
    }
    rec::scenario("names", []() {
        for(const string sub : {"", "data", "a.b/c", "run.dat", "v1.2/x y/z.txt"}) {
            for(const string stem : {"out", "U=0.5_J=1.25", "n", "a.txt", "long-name-of-a-run-with-all-its-parameters-N=16-U=0.5-J=1.25-dt=0.01"}) {
                for(const string ext : {".txt", ".dat", ".t"}) beside(sub, stem, ext);
            }
            for(const string stem : {"plain", "x-1"}) beside(sub, stem, "");
        }
    });
    // ---- options
    for(long k = 0; k < (th ? 60 : 12); ++k) {
        ++salt;
        rec::scenario("options-" + to_string(k), [=]() {
            rec::Rng r(salt);
            Scratch dir;
            vector<bool> wrote{false};
            for(long id = 1; id <= 8; ++id) {
                vector<Setting> cli;
                for(const auto& key : KEYS) {
                    if(r.in(0, 2) == 0) cli.push_back(setting(key, r));
                }
                if(r.flip()) reverse(cli.begin(), cli.end());
                long from = 0;
                if(id > 1 && r.in(0, 2) > 0) from = r.in(1, id - 1);
                if(from > 0 && !wrote[static_cast<size_t>(from)]) from = 0;
                if(id == 2) from = 1;
                run_program(dir, id, cli, from ? dir("run" + to_string(from) + ".rsp") : "", from, r.in(0, 3) > 0);
                wrote.push_back(from == 0);
            }
            run_program(dir, 99, {}, dir("absent.rsp"), 0, true, true);
        });
    }
    return rec::run();
}
