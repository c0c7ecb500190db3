// declarations of the library modules: functions, overload numbers, classes
#pragma once
#include "core.h"
#include <fstream>
#include <sstream>
#include <filesystem>
namespace {
typedef std::vector<std::string> Types;
struct Proto { std::string ret; Types params; bool member, body; std::string full; };
struct ScriptField { std::string type, name; };
struct ScriptClass { std::vector<ScriptField> fields; bool defined = false; };
std::map<std::string, std::map<std::string, std::vector<Proto>>> protos; // module -> function -> overloads
std::map<std::string, std::map<std::string, ScriptClass>> classes; // module -> class
std::map<std::string, std::string> moduleText; // without comments and strings
std::string squeeze(std::string s)
{
	std::string r; bool sp = false;
	for(char c : s) { if(isspace((unsigned char)c)) { sp = !r.empty(); continue; } if(sp && (isalnum((unsigned char)c) || c == '_') && (isalnum((unsigned char)r.back()) || r.back() == '_' || r.back() == ']' || r.back() == '>' || r.back() == ')')) r += ' '; sp = false; r += c; }
	return r;
}
// splits "char[] a, b, int c = 3" into types
Types paramTypes(const std::string &s)
{
	Types r; std::string cur, last; int depth = 0;
	auto flush = [&]() {
		std::string t = cur.substr(0, cur.find('='));
		t = squeeze(t);
		cur.clear();
		if(t.empty()) return;
		size_t p = t.find_last_of(" ])>");
		bool named = p != std::string::npos && p + 1 < t.size();
		if(t.compare(0, 9, "explicit ") == 0) t = t.substr(9), p = t.find_last_of(" ])>");
		if(!named) { if(t.back() == ']' || t.back() == '>' || t.back() == ')' || last.empty()) { last = t; r.push_back(t); } else r.push_back(last); return; }
		last = t.substr(0, t[p] == ' ' ? p : p + 1);
		r.push_back(last);
	};
	for(char c : s)
	{
		if(c == '(' || c == '[' || c == '<') depth++;
		if(c == ')' || c == ']' || c == '>') depth--;
		if(c == ',' && depth == 0) { flush(); continue; }
		cur += c;
	}
	flush();
	return r;
}
void parseModule(const std::string &module, std::string text)
{
	std::string t;
	for(size_t i = 0; i < text.size(); i++)
	{
		if(text.compare(i, 2, "//") == 0) { while(i < text.size() && text[i] != '\n') i++; t += '\n'; continue; }
		if(text.compare(i, 2, "/*") == 0) { size_t e = text.find("*/", i); if(e == std::string::npos) break; i = e + 1; continue; }
		if(text[i] == '"' || text[i] == '\'') { char q = text[i++]; while(i < text.size() && text[i] != q) { if(text[i] == '\\') i++; i++; } t += "0"; continue; }
		t += text[i];
	}
	moduleText[module] = t;
	// statements at namespace or class level
	std::vector<std::pair<std::string, bool>> scopes; // prefix, class
	std::string cur; int paren = 0;
	for(size_t i = 0; i < t.size(); i++)
	{
		char c = t[i];
		if(c == '(') paren++;
		if(c == ')') paren--;
		if(paren == 0 && (c == ';' || c == '{' || c == '}'))
		{
			std::string s = squeeze(cur);
			cur.clear();
			if(c == '}') { if(!scopes.empty()) scopes.pop_back(); continue; }
			if(c == '{' && s.compare(0, 10, "namespace ") == 0) { scopes.push_back({ s.substr(10) + ".", false }); continue; }
			if(s.compare(0, 6, "align(") == 0) { size_t k = s.find(") "); if(k != std::string::npos) { classes[module]; s = s.substr(k + 2); } }
			if(c == '{' && s.compare(0, 6, "class ") == 0 && s.find('(') == std::string::npos) { std::string n = s.substr(6); n = n.substr(0, n.find_first_of(" <:")); std::string prefix; for(auto &x : scopes) prefix += x.first; classes[module][prefix + n].defined = true; scopes.push_back({ n + "::", true }); continue; }
			if(c == ';' && !scopes.empty() && scopes.back().second && !s.empty() && s.back() != ')' && s.find('=') == std::string::npos)
			{
				std::string prefix;
				for(auto &x : scopes) prefix += x.first;
				auto &C = classes[module][prefix.substr(0, prefix.size() - 2)];
				// "int x, y": the type is everything before the last word of the first declarator
				std::string first = s.substr(0, s.find(',')), rest = first.size() < s.size() ? s.substr(first.size() + 1) : "";
				if(s.find('(') != std::string::npos || s.find('<') != std::string::npos) { size_t k = s.find_last_of(")>"); size_t q = s.find(',', k); first = s.substr(0, q); rest = q == std::string::npos ? "" : s.substr(q + 1); }
				size_t p = first.find_last_of(" ])>");
				if(p != std::string::npos)
				{
					std::string type = first.substr(0, first[p] == ' ' ? p : p + 1);
					C.fields.push_back({ type, first.substr(p + 1) });
					for(size_t k = 0; !rest.empty() && k != std::string::npos;) { size_t q = rest.find(',', k); C.fields.push_back({ type, squeeze(rest.substr(k, q == std::string::npos ? q : q - k)) }); k = q == std::string::npos ? q : q + 1; }
				}
				continue;
			}
			size_t e = s.rfind(')'), o = std::string::npos;
			if(e != std::string::npos) { int d = 0; for(size_t k = e + 1; k-- > 0;) { if(s[k] == ')') d++; if(s[k] == '(' && --d == 0) { o = k; break; } } }
			if(s.compare(0, 8, "typedef ") == 0) o = std::string::npos;
			bool oper = o != std::string::npos && s.substr(0, o).find("operator") != std::string::npos;
			if(o != std::string::npos && e != std::string::npos && e > o && (oper || s.find('=') > o))
			{
				std::string head = s.substr(0, o);
				size_t sp = head.find_last_of(" ]>");
				if(head.find("operator") != std::string::npos) sp = head.find("operator") - 1;
				if(sp != std::string::npos && sp < head.size())
				{
					std::string name = head.substr(sp + 1), ret = head.substr(0, head[sp] == ' ' ? sp : sp + 1);
					if(name.compare(0, 8, "operator") == 0) { name = squeeze(name.substr(8)); }
					bool member = false;
					size_t dot = name.find('.');
					if(dot != std::string::npos && dot > 0 && dot + 1 < name.size() && (isalpha((unsigned char)name[dot + 1]) || name[dot + 1] == '_')) name = name.substr(0, dot) + "::" + name.substr(dot + 1) + "$"; // accessor
					size_t col = name.find_first_of(":");
					if(col != std::string::npos) { size_t k = name.find_first_not_of(":", col); name = name.substr(0, col) + "::" + (k == std::string::npos ? "" : name.substr(k)); member = true; }
					std::string prefix;
					for(auto &x : scopes) { prefix += x.first; if(x.second) member = true; }
					if(!name.empty()) protos[module][prefix + name].push_back({ ret, paramTypes(s.substr(o + 1, e - o - 1)), member, c == '{', s });
				}
			}
			if(c == '{') // skip the body
			{
				int d = 1;
				while(++i < t.size() && d) { if(t[i] == '{') d++; if(t[i] == '}') d--; }
				i--;
			}
			continue;
		}
		cur += c;
	}
}
std::string strOf(const Value *v)
{
	auto *G = dyn_cast<GlobalVariable>(v->stripPointerCasts());
	if(!G || !G->hasInitializer()) return "";
	auto *D = dyn_cast<ConstantDataArray>(G->getInitializer());
	return D && D->isCString() ? D->getAsCString().str() : "";
}
void loadModules()
{
	for(auto &p : std::filesystem::recursive_directory_iterator("/repo/Modules"))
		if(p.path().extension() == ".nc")
		{
			std::ifstream f(p.path());
			std::stringstream ss; ss << f.rdbuf();
			std::string n = std::filesystem::relative(p.path(), "/repo/Modules").string();
			n = n.substr(0, n.size() - 3);
			std::replace(n.begin(), n.end(), '/', '.');
			parseModule(n, ss.str());
		}
	if(auto *G = M->getNamedGlobal("nullcBaseCode"); true)
	{
		for(auto &g : M->globals()) if(g.getName().contains("nullcBaseCode")) G = &g;
		if(G && G->hasInitializer())
		{
			const Value *v = G->getInitializer();
			std::string s = strOf(v);
			if(s.empty()) if(auto *D = dyn_cast<ConstantDataArray>(v)) if(D->isCString()) s = D->getAsCString().str();
			parseModule("$base$", s);
			R.stat("base_module_bytes", s.size());
		}
	}
}
}
