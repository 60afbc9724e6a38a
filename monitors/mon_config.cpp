// P21: values the program's own configuration reader gives for a parameter file and a list of requests.
// args: parameter file, request file, recorded parameter file to write
// requests: "<type> <section> <name> [<default>]", tab separated; "b" = read the file recorded so far and go on with it
// answers: "= <value>" or "! <message>"; "E" when the file itself is refused
#include "DyabloSession.hpp"
#include "utils/config/ConfigMap.h"
#include "enums.h"
#include <fstream>
#include <memory>
#include <vector>
#include <cstdio>
#include <sstream>
static std::string esc(const std::string& s)
{
  std::string r; char b[8];
  for(unsigned char c : s){ if(c>32 && c<127 && c!='%') r+=c; else { snprintf(b,8,"%%%02x",c); r+=b; } }
  return r;
}
static std::string txt(const std::string& s){ return esc(s); }
static std::string txt(double v){ char b[64]; snprintf(b,64,"%a",v); return b; }
static std::string txt(bool v){ return v?"1":"0"; }
template<class T> static std::string txt(const T& v){ std::ostringstream o; if constexpr(std::is_enum_v<T>) o<<(long long)v; else o<<v; return o.str(); }
template<class T> static std::string txt(const std::vector<T>& v){ std::string r="["; for(const T& x : v) r+=txt(x)+","; return r+"]"; }
template<class T> static T parse(const std::string& d)
{
  if constexpr(std::is_same_v<T,std::string>) return d;
  else if constexpr(std::is_same_v<T,bool>) return d=="1";
  else if constexpr(std::is_same_v<T,double>) return strtod(d.c_str(),nullptr);
  else if constexpr(std::is_same_v<T,std::vector<std::string>>){ T r; std::istringstream s(d); std::string t; while(std::getline(s,t,',')) r.push_back(t); return r; }
  else if constexpr(std::is_same_v<T,std::vector<double>>){ T r; std::istringstream s(d); std::string t; while(std::getline(s,t,',')) r.push_back(strtod(t.c_str(),nullptr)); return r; }
  else if constexpr(std::is_unsigned_v<T>) return (T)strtoull(d.c_str(),nullptr,10);
  else return (T)strtoll(d.c_str(),nullptr,10);
}
template<class T> static std::string ask(ConfigMap& c, const std::vector<std::string>& q)
{
  try { return "= "+( q.size()>3 ? txt(c.getValue<T>(q[1],q[2],parse<T>(q[3]))) : txt(c.getValue<T>(q[1],q[2])) ); }
  catch(const std::exception& e){ return "! "+esc(e.what()).substr(0,200); }
}
int main(int argc, char* argv[])
{
  using namespace dyablo;
  DyabloSession mpi_session(argc, argv);
  std::unique_ptr<ConfigMap> c;
  try { c=std::make_unique<ConfigMap>(ConfigMap::broadcast_parameters(argv[1])); }
  catch(const std::exception& e){ printf("E %s\n",esc(e.what()).substr(0,200).c_str()); return 0; }
  std::ifstream in(argv[2]); std::string line; int n=0;
  while(std::getline(in,line))
  {
    std::vector<std::string> q; std::string t; std::istringstream s(line);
    while(std::getline(s,t,'\t')) q.push_back(t);
    if(!line.empty() && line.back()=='\t') q.push_back("");
    std::string k=q[0], r;
    if(k=="b")
    {
      std::string f=std::string(argv[3])+std::to_string(n++);
      { std::ofstream o(f); c->output(o); }
      try { c=std::make_unique<ConfigMap>(ConfigMap::broadcast_parameters(f)); r="= back"; }
      catch(const std::exception& e){ r="E "+esc(e.what()).substr(0,200); }
    }
    else if(k=="i") r=ask<int>(*c,q);
    else if(k=="u") r=ask<uint32_t>(*c,q);
    else if(k=="z") r=ask<size_t>(*c,q);
    else if(k=="d") r=ask<double>(*c,q);
    else if(k=="o") r=ask<bool>(*c,q);
    else if(k=="s") r=ask<std::string>(*c,q);
    else if(k=="vs") r=ask<std::vector<std::string>>(*c,q);
    else if(k=="vd") r=ask<std::vector<double>>(*c,q);
    else if(k=="eb") r=ask<BoundaryConditionType>(*c,q);
    else if(k=="er") r=ask<GravityType>(*c,q);
    else if(k=="h") r=c->hasValue(q[1],q[2])?"= 1":"= 0";
    printf("%s\n",r.c_str());
  }
  return 0;
}
