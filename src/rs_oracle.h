// Independent Reeds-Shepp reference (formulas of the original paper in the signed
// form used by other planners); every candidate is simulated before being used.
#pragma once
#include <cmath>
#include <cstring>
#include <vector>

namespace rs {
	struct Seg {
		char steer; // 'L', 'S', 'R'
		double len; // signed, normalised
	};
	using Word = std::vector<Seg>;
	struct Pose {
		double x, y, t;
	};
	inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
	inline Pose sim(Pose p, const Seg& s, double radius = 1)
	{
		double l = s.len;
		if (s.steer == 'S')
			return { p.x + radius * l * std::cos(p.t), p.y + radius * l * std::sin(p.t), p.t };
		double k = s.steer == 'L' ? 1 : -1;
		double t = p.t + k * l;
		return { p.x + radius * k * (std::sin(t) - std::sin(p.t)), p.y - radius * k * (std::cos(t) - std::cos(p.t)), t };
	}
	inline Pose sim(const Word& w)
	{
		Pose p = { 0, 0, 0 };
		for (auto& s : w)
			p = sim(p, s);
		return p;
	}
	inline double length(const Word& w)
	{
		double l = 0;
		for (auto& s : w)
			l += std::abs(s.len);
		return l;
	}
	/// Cost (normalised lengths scaled by the radius).
	inline double cost(const Word& w, double radius, double rev, double fwd, double sw)
	{
		double c = 0;
		int prev = 0;
		for (auto& s : w) {
			if (std::abs(s.len) < 1e-9)
				continue;
			int d = s.len > 0 ? 1 : -1;
			c += std::abs(s.len) * radius * (d > 0 ? fwd : rev);
			if (prev && d != prev)
				c += sw;
			prev = d;
		}
		return c;
	}

	struct Candidates {
		std::vector<Word> words;
		double x, y, phi;

		static double m2p(double a)
		{
			double v = std::fmod(a, 2 * M_PI);
			if (v < -M_PI)
				v += 2 * M_PI;
			else if (v > M_PI)
				v -= 2 * M_PI;
			return v;
		}
		static constexpr double Z = 1e-9;

		/// The word is one of the 48 Reeds-Shepp words (a motion of length zero matches both directions).
		static bool standard(const Word& w)
		{
			static const char* base[] = { "LfSfLf", "LfSfRf", "LfRbLf", "LfRbLb", "LfRfLb", "LfRfLbRb", "LfRbLbRf", "LfRbSbLb", "LfRbSbRb", "LfSfRfLb", "LfSfLfRb", "LfRbSbLbRf" };
			for (const char* b : base) {
				if (std::strlen(b) != 2 * w.size())
					continue;
				for (int tf = 0; tf < 2; tf++)
					for (int rf = 0; rf < 2; rf++) {
						bool ok = true;
						for (size_t i = 0; i < w.size() && ok; i++) {
							char s = b[2 * i];
							if (rf && s != 'S')
								s = s == 'L' ? 'R' : 'L';
							bool fwd = (b[2 * i + 1] == 'f') != (bool)tf;
							ok = s == w[i].steer && (std::abs(w[i].len) < Z || (w[i].len > 0) == fwd);
						}
						if (ok)
							return true;
					}
			}
			return false;
		}
		void add(Word w, bool timeflip, bool reflect)
		{
			for (auto& s : w) {
				if (timeflip)
					s.len = -s.len;
				if (reflect && s.steer != 'S')
					s.steer = s.steer == 'L' ? 'R' : 'L';
			}
			if (!standard(w))
				return;
			Pose p = sim(w);
			if (std::hypot(p.x - x, p.y - y) < 1e-7 && std::abs(wrap(p.t - phi)) < 1e-7)
				words.push_back(w);
		}
		static void tauOmega(double u, double v, double xi, double eta, double phi, double& tau, double& omega)
		{
			double delta = m2p(u - v), A = std::sin(u) - std::sin(delta), B = std::cos(u) - std::cos(delta) - 1.;
			double t1 = std::atan2(eta * A - xi * B, xi * A + eta * B), t2 = 2. * (std::cos(delta) - std::cos(v) - std::cos(u)) + 3;
			tau = t2 < 0 ? m2p(t1 + M_PI) : m2p(t1);
			omega = m2p(tau - u + v - phi);
		}
		/// All base words for a goal; order: forward goal, then (back) reversed.
		void base(double X, double Y, double P, bool tf, bool rf, bool back)
		{
			auto put = [&](Word w) {
				if (back)
					w = Word(w.rbegin(), w.rend());
				add(w, tf, rf);
			};
			double xi1 = X - std::sin(P), eta1 = Y - 1 + std::cos(P), xi2 = X + std::sin(P), eta2 = Y - 1 - std::cos(P);
			const double H = M_PI / 2;
			// CSC
			{
				double u = std::hypot(xi1, eta1), t = std::atan2(eta1, xi1);
				double v = m2p(P - t);
				put({ { 'L', t }, { 'S', u }, { 'L', v } });
			}
			{
				double u1 = xi2 * xi2 + eta2 * eta2, t1 = std::atan2(eta2, xi2);
				if (u1 >= 4 - Z) {
					double u = std::sqrt(std::max(0.0, u1 - 4)), th = std::atan2(2, u), t = m2p(t1 + th), v = m2p(t - P);
					put({ { 'L', t }, { 'S', u }, { 'R', v } });
				}
			}
			// CCC
			{
				double u1 = std::hypot(xi1, eta1), th = std::atan2(eta1, xi1);
				if (u1 <= 4) {
					double u = -2 * std::asin(.25 * u1), t = m2p(th + .5 * u + M_PI), v = m2p(P - t + u);
					put({ { 'L', t }, { 'R', u }, { 'L', v } });
				}
			}
			// CCCC
			{
				double rho = .25 * (2 + std::hypot(xi2, eta2));
				if (rho <= 1) {
					double u = std::acos(rho), t, v;
					tauOmega(u, -u, xi2, eta2, P, t, v);
					put({ { 'L', t }, { 'R', u }, { 'L', -u }, { 'R', v } });
				}
				rho = (20 - xi2 * xi2 - eta2 * eta2) / 16;
				if (rho >= 0 && rho <= 1) {
					double u = -std::acos(rho), t, v;
					tauOmega(u, u, xi2, eta2, P, t, v);
					put({ { 'L', t }, { 'R', u }, { 'L', u }, { 'R', v } });
				}
			}
			// CCSC
			{
				double rho = std::hypot(xi1, eta1), th = std::atan2(eta1, xi1);
				if (rho >= 2) {
					double r = std::sqrt(rho * rho - 4), u = 2 - r, t = m2p(th + std::atan2(r, -2)), v = m2p(P - H - t);
					put({ { 'L', t }, { 'R', -H }, { 'S', u }, { 'L', v } });
				}
				rho = std::hypot(xi2, eta2);
				th = std::atan2(xi2, -eta2);
				if (rho >= 2) {
					double t = th, u = 2 - rho, v = m2p(t + H - P);
					put({ { 'L', t }, { 'R', -H }, { 'S', u }, { 'R', v } });
				}
			}
			// CCSCC
			{
				double rho = std::hypot(xi2, eta2);
				if (rho >= 2) {
					double u = 4 - std::sqrt(rho * rho - 4);
					double t = m2p(std::atan2((4 - u) * xi2 - 2 * eta2, -2 * xi2 + (u - 4) * eta2)), v = m2p(t - P);
					put({ { 'L', t }, { 'R', -H }, { 'S', u }, { 'L', -H }, { 'R', v } });
				}
			}
		}
		Candidates(double x, double y, double phi) :
			x(x), y(y), phi(phi)
		{
			for (int back = 0; back < 2; back++) {
				double X = back ? x * std::cos(phi) + y * std::sin(phi) : x;
				double Y = back ? x * std::sin(phi) - y * std::cos(phi) : y;
				base(X, Y, phi, false, false, back);
				base(-X, Y, -phi, true, false, back);
				base(X, -Y, -phi, false, true, back);
				base(-X, -Y, phi, true, true, back);
			}
		}
		double best() const
		{
			double b = 1e18;
			for (auto& w : words)
				b = std::min(b, length(w));
			return b;
		}
		double bestCost(double radius, double rev, double fwd, double sw) const
		{
			double b = 1e18;
			// Words with a motion of length zero (or turns of half a circle) are
			// on the border of their domain: which side they are on (and whether
			// they count as a change of direction) is a matter of rounding.
			for (auto& w : words) {
				bool degenerate = false;
				for (auto& s : w)
					degenerate = degenerate || std::abs(s.len) < 1e-6 || (s.steer != 'S' && std::abs(s.len) > M_PI - 1e-6);
				if (!degenerate)
					b = std::min(b, cost(w, radius, rev, fwd, sw));
			}
			return b;
		}
	};
}
