// C16: samplers and their random numbers
#include "vt.hpp"
#include <memory>
#include <cmath>
#include "nlohmann/json.hpp"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
using nlohmann::json;
static std::unique_ptr<Sampler> make(const json& t, const unsigned int* seed)
{
    int a = t["sx"], b = t["ex"], c = t["sy"], d = t["ey"], n = t["spp"], k = t["kind"];
    if(k == 1) return std::unique_ptr<Sampler>(new SamplerRandom(a, b, c, d, n, seed));
    return std::unique_ptr<Sampler>(new SamplerStratified(a, b, c, d, n, seed, k == 2));
}
static std::string h8(unsigned int u) { char b[16]; snprintf(b, sizeof(b), "%08x", u); return b; }
static std::string bits(float f) { unsigned int u; memcpy(&u, &f, 4); return h8(u); }
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string op, rest; is >> op; std::getline(is, rest);
    json j = json::parse(rest);
    unsigned int seed[WELL_R];
    for(int i = 0; i<WELL_R; i++) seed[i] = (unsigned int)j["seed"][i][0]<<16 | (unsigned int)j["seed"][i][1];
    if(op == "R")
    {
        WELLrng r(seed);
        SamplerRandom s(0, 1, 0, 1, 1, seed);
        SamplerStratified t(3, 5, 7, 9, 4, seed, true);
        int n = j["n"];
        std::vector<float> a(n), b(n);
        int k = 0;
        for(int i = 0; i<n; i += k) { k = 1+i%5; if(k>n-i) k = n-i; s.get_random_numbers(&a[i], k); }
        t.get_random_numbers(b.data(), n);
        for(int i = 0; i<n; i++)
        {
            float f = r.getNumber();
            os << bits(f) << " ";
            if(f != a[i] || f != b[i]) { os << "differs"; return; }
        }
        return;
    }
    // W: a walk; the same sampler again, while another one works as well
    const json& t = j["t"]; int spp = t["spp"];
    unsigned int other[WELL_R];
    for(int i = 0; i<WELL_R; i++) other[i] = seed[i]*5+i;
    std::unique_ptr<Sampler> s = make(t, seed), s2 = make(t, seed), s3 = make(t, other);
    const float MARK = -12345.f;
    std::vector<Sample> v(spp+4), v2(spp+4), v3(spp+4);
    float num[16], num2[16];
    for(auto& e : j["h"])
    {
        if(e["o"] == "n")
        {
            int n = e["n"];
            s->get_random_numbers(num, n); s2->get_random_numbers(num2, n);
            for(int i = 0; i<n; i++)
                if(!(num[i]>=0.f && num[i]<=1.f) || num[i] != num2[i]) { os << "number " << num[i] << " " << num2[i]; return; }
            continue;
        }
        for(auto* w : {&v, &v2, &v3}) for(auto& x : *w) x.posx = x.posy = MARK;
        bool a = s->get_samples(v.data());
        s3->get_samples(v3.data());
        bool b = s2->get_samples(v2.data());
        if(a != b) { os << "same seed, other answer"; return; }
        if(!a) { os << "0 "; continue; }
        os << "1";
        for(int i = 0; i<spp+4; i++)
        {
            if(i>=spp && (v[i].posx != MARK || v[i].posy != MARK)) { os << " beyond"; return; }
            if(v[i].posx != v2[i].posx || v[i].posy != v2[i].posy) { os << " same seed, other samples"; return; }
            if(i<spp) { char c[64]; snprintf(c, sizeof(c), ",%.9g,%.9g", v[i].posx, v[i].posy); os << c; }
        }
        os << " ";
    }
}
int main(int c, char** v) { return vt::run(c, v, one); }
