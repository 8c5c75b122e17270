import java.io.*;
import java.util.*;

/** Executes scripts of operations on the Java interface; one result line per operation. */
public class JavaWorker {
	static Map<String, Suite> S = new HashMap<>();
	static Map<String, Observer> O = new HashMap<>();
	static Map<String, Benchmark> B = new HashMap<>();
	static Map<String, Problem> P = new HashMap<>();

	static String d(double[] v) {
		if (v == null) return "null";
		StringBuilder b = new StringBuilder("[");
		for (double x : v) b.append(b.length() > 1 ? "," : "").append(Double.isNaN(x) ? "nan" : Long.toHexString(Double.doubleToRawLongBits(x)));
		return b + "]";
	}

	static double[] x(String s) {
		if (s.equals("null")) return null;
		if (s.isEmpty()) return new double[0];
		String[] f = s.split(",");
		double[] r = new double[f.length];
		for (int i = 0; i < r.length; i++) r[i] = Double.longBitsToDouble(Long.parseUnsignedLong(f[i], 16));
		return r;
	}

	static String all(Problem p) {
		return p.getId() + "|" + p.getName() + "|" + p.getDimension() + "|" + p.getNumberOfObjectives() + "|" + p.getNumberOfConstraints() + "|"
			+ p.getNumberOfIntegerVariables() + "|" + p.getIndex() + "|" + d(p.getSmallestValuesOfInterest()) + "|" + d(p.getLargestValuesOfInterest()) + "|" + p.toString();
	}

	static String op(String[] a) throws Exception {
		switch (a[0]) {
		case "level": CocoJNI.cocoSetLogLevel(a[1]); return "ok";
		case "suite": S.put(a[1], new Suite(a[2], a[3], a[4])); return S.get(a[1]).getPointer() == 0 ? "none" : S.get(a[1]).getNumberOfProblems() + "|" + S.get(a[1]).getName() + "|" + S.get(a[1]);
		case "observer": O.put(a[1], new Observer(a[2], a[3])); return (O.get(a[1]).getPointer() == 0) + "|" + O.get(a[1]).getName() + "|" + O.get(a[1]);
		case "bench": B.put(a[1], new Benchmark(S.get(a[2]), O.get(a[3]))); return "ok";
		case "next": { Problem p = B.get(a[1]).getNextProblem(); if (p != null) P.put(a[2], p); return p == null ? "null" : all(p); }
		case "fdi": { Problem p = S.get(a[1]).getProblemByFuncDimInst(Long.parseLong(a[2]), Long.parseLong(a[3]), Long.parseLong(a[4])); P.put(a[5], p); return p == null ? "null" : all(p); }
		case "get": { long q = CocoJNI.cocoSuiteGetProblem(S.get(a[1]).getPointer(), Long.parseLong(a[2])); P.put(a[3], q == 0 ? null : new Problem(q)); return q == 0 ? "null" : all(P.get(a[3])); }
		case "add": P.put(a[1], new Problem(CocoJNI.cocoProblemAddObserver(P.get(a[1]).getPointer(), O.get(a[2]).getPointer()))); return all(P.get(a[1]));
		case "rem": P.put(a[1], new Problem(CocoJNI.cocoProblemRemoveObserver(P.get(a[1]).getPointer(), O.get(a[2]).getPointer()))); return all(P.get(a[1]));
		case "eval": { double[] x = x(a[2]), c = x == null ? null : x.clone(); double[] y = P.get(a[1]).evaluateFunction(x); return d(y) + "|" + Arrays.equals(x, c); }
		case "con": { double[] x = x(a[2]), c = x == null ? null : x.clone(); double[] y = P.get(a[1]).evaluateConstraint(x); return d(y) + "|" + Arrays.equals(x, c); }
		case "rec": P.get(a[1]).recommendSolution(x(a[2])); return "ok";
		case "count": return P.get(a[1]).getEvaluations() + "|" + P.get(a[1]).getEvaluationsConstraints();
		case "hit": return "" + P.get(a[1]).isFinalTargetHit();
		case "nadir": return d(P.get(a[1]).getLargestFValuesOfInterest());
		case "info": return all(P.get(a[1]));
		case "bound": return d(new double[] {P.get(a[1]).getSmallestValueOfInterest(Integer.parseInt(a[2])), P.get(a[1]).getLargestValueOfInterest(Integer.parseInt(a[2]))});
		case "restart": O.get(a[1]).signalRestart(P.get(a[2])); return "ok";
		case "freeb": B.get(a[1]).finalizeBenchmark(); return "ok";
		case "freeo": O.get(a[1]).finalizeObserver(); return "ok";
		case "frees": S.get(a[1]).finalizeSuite(); return "ok";
		case "gc": System.gc(); return "ok";
		}
		throw new RuntimeException("unknown operation");
	}

	public static void main(String[] args) throws Exception {
		PrintStream out = System.out;
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
		String line;
		while ((line = in.readLine()) != null) {
			String[] a = line.split("\t", -1);
			if (a[0].equals("begin")) {
				S.clear(); O.clear(); B.clear(); P.clear();
				continue;
			}
			String r;
			try {
				r = "=" + op(a);
			} catch (Throwable e) {
				r = "!" + e.toString().replace('\n', ' ');
			}
			out.println(r);
			out.flush();
		}
	}
}
