"""Planted lifetime and initialisation mistakes (must be reported by C23) and harmless edits (must stay quiet)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sa'))
sys.setrecursionlimit(100000)
S, H = 'src/', 'inst/include/'
B = {}


def b(name, *edits):
    B[name] = edits


G, MN, MB, CG = S + 'GLMMBelief.cpp', S + 'MultiNormal.cpp', S + 'MixedContinuousBelief.cpp', S + 'ClusterGraph.cpp'
IF, SS, SG, SGT, PT, QR, SE, IH = [S + x + '.cpp' for x in ('IntegratedFunction', 'SparseStore', 'SparseGrid', 'SparseGridTransform', 'Point', 'QuadratureRule', 'subsetEigen', 'itemsHelper')]
FA, BL, BI, NB = S + 'Family.cpp', S + 'BasisLevel.cpp', S + 'Binomial.cpp', S + 'NormalBelief.cpp'
# D
b('d-matrix', (G, 'return LambdatThetaZt_ * family.evaluateDerivative(linearPredictor, response_, weights_).matrix();', 'auto slope = family.evaluateDerivative(linearPredictor, response_, weights_).matrix();\n  return LambdatThetaZt_ * slope;'))
b('d-solve', (MN, 'setMean(location + precision_.colPivHouseholderQr().solve(derivative));', 'auto step = precision_.colPivHouseholderQr().solve(derivative);\n  setMean(location + step);'))
b('d-row', (QR, 'Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hermiteJacobi);\n  nodes_ = es.eigenvalues().array();\n\n  Eigen::ArrayXd firstRow = es.eigenvectors().row(0).array();', 'nodes_ = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(hermiteJacobi).eigenvalues().array();\n\n  auto firstRow = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(hermiteJacobi).eigenvectors().row(0).array();'))
b('d-diff', (SS, 'Eigen::VectorXd derivativeModifier', 'auto derivativeModifier'))
b('d-diff2', (SS, 'Eigen::MatrixXd secondDerivativeModifier', 'auto secondDerivativeModifier'))
b('d-pow', (FA, 'return pow(meanDerivative, 2) * familySecondDerivative', 'auto squared = pow(link_.computeMeanDerivative(linearPredictor), 2);\n  return squared * familySecondDerivative'))
b('d-iter', (CG, '    auto clusterItems = cluster.getItems();\n', '    std::vector<int> clusterItems(cluster.getItems().begin(), cluster.getItems().end());\n'))
b('d-iter2', (MB, '    auto itemsIntegrate = findItemsDifference(items_, items);\n', ''), (MB, 'for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {', 'for(auto i = findItemsDifference(items_, items).begin(); i != findItemsDifference(items_, items).end(); ++i) {'))
b('d-retlocal', (PT, 'Point Point::firstParent(int direction)\n', 'Point& Point::firstParent(int direction)\n'), (H + 'Point.h', 'Point firstParent(', 'Point& firstParent('))
b('d-getter2', (H + 'MultiNormal.h', 'Eigen::VectorXd getMean() const;', 'const Eigen::VectorXd& getMean() const;'), (MN, 'Eigen::VectorXd MultiNormal::getMean() const', 'const Eigen::VectorXd& MultiNormal::getMean() const'),
  (MB, 'auto normalMean = normalApprox_.getNormal().getMean();', 'const auto& normalMean = normalApprox_.getNormal().getMean();'))
b('d-rfor', (H + 'BeliefBase.h', '  std::vector<int> getItems() const;', '  const std::vector<int>& getItems() const;'), (S + 'BeliefBase.cpp', 'std::vector<int> BeliefBase::getItems() const', 'const std::vector<int>& BeliefBase::getItems() const'),
  (CG, '    auto clusterItems = cluster.getItems();\n', '    std::vector<int> clusterItems;\n    for(auto item : getCluster(&cluster - &clusters_[0]).getItems())\n      clusterItems.push_back(item);\n'))
b('d-lambda-ret', (IF, '    Eigen::ArrayXd ret = (derivativeRem + correction).array();\n    return ret;', '    return (derivativeRem + correction).array();'))
b('d-inverse', (IF, 'auto variance22 = getMatrixWithout(integrateOver_, variance);', 'auto variance22inv = getMatrixWithout(integrateOver_, variance).inverse();'), (IF, 'variance22.inverse() * variance21', 'variance22inv * variance21'))

b('d-sub', (MN, '  auto precisionSubset = getMatrixSubset(precision_, subset);\n', '  auto precisionSubset = getMatrixSubset(precision_, subset).block(0, 0, subset.size(), subset.size());\n'))
# L
b('l-fun', (IF, 'function_(function), ', 'function_([&function](const Vector& x) { return function(x); }), '))
b('l-body', (IF, '{\n  initializeNormal();\n  initializeConditionalTerms();', '{\n  function_ = [&](const Vector& x) { return function(x); };\n  initializeNormal();\n  initializeConditionalTerms();'))
# I

b('i-push', (MB, '''  for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
      i != other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(other.isInverted_[i]);
  }

  recomputeRelativeItems();
}

''', '''  if(beliefs_.empty() && !other.beliefs_.empty()) {
    beliefs_.push_back(other.beliefs_[0]);
    isInverted_.push_back(other.isInverted_[0]);
    const auto& first = beliefs_.front();
    for(auto i = 1; i < (int) other.beliefs_.size(); ++i) {
      beliefs_.push_back(other.beliefs_[i]);
      isInverted_.push_back(other.isInverted_[i]);
    }
    if(first.getItems().size() > items_.size())
      items_ = first.getItems();
  } else {
    for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
        i != other.beliefs_.size(); ++i) {
      beliefs_.push_back(other.beliefs_[i]);
      isInverted_.push_back(other.isInverted_[i]);
    }
  }

  recomputeRelativeItems();
}

'''))
b('i-loop', (CG, '    clusters_.push_back(dependenceGraph.getItems());', '    if(clusters_.empty())\n      clusters_.push_back(dependenceGraph.getItems());\n    else {\n      auto last = clusters_.begin();\n      clusters_.push_back(dependenceGraph.getItems());\n      if(last->getItems().empty())\n        throw std::domain_error("empty cluster");\n    }'))
b('i-rfor', (MB, '  relativeItems_.clear();\n', '  relativeItems_.clear();\n  for(auto item : items_)\n    if(item < 0) items_.push_back(-item);\n'))
# U
b('u-ret', (PT, '''  double ret = 1.0;
  auto d = levels_.size();''', '''  double ret;
  auto d = levels_.size();'''))
b('u-sum', (SG, '''{
  double ret = 0;
  Point point(d_);''', '''{
  double ret;
  Point point(d_);'''))
b('u-min', (CG, 'int minSeparatorSize = remainingItems.size();', 'int minSeparatorSize;'))
b('u-success', (PT, '''  bool success = false;
  int t = 0;
  int d''', '''  bool success;
  int t = 0;
  int d'''))
b('u-zero', (QR, 'Eigen::ArrayXd ret = Eigen::ArrayXd::Zero(d);', 'Eigen::ArrayXd ret(d);'))
b('u-zero2', (MB, 'Eigen::VectorXd ret = Eigen::VectorXd::Zero(x.size());', 'Eigen::VectorXd ret(x.size());'))
b('u-resize', (SG, '''      ret = Eigen::VectorXd::Zero(d_);
      Point point(d_);''', '''      ret.resize(d_);
      Point point(d_);'''))
b('u-ones', (PT, '  Eigen::VectorXd ret;\n  ret = Eigen::VectorXd::Ones(d);', '  Eigen::VectorXd ret(d);'))
b('u-empty', (QR, 'Eigen::MatrixXd hermiteJacobi = Eigen::MatrixXd::Zero(n, n);', 'Eigen::MatrixXd hermiteJacobi(n, n);'))
b('u-ext', (SE, '  Vector ret(vector.size() - 1);\n  setVectorWithout(index, ret, vector);\n  return ret;', '  Vector ret(vector.size() - 1);\n  return ret;'))
b('u-success2', (PT, '    success = false;\n  }\n  return success;', '  }\n  return success;'))
# F
b('f-fixed', (MB, 'normalApprox_(belief.getItems()), isNormalFixed_(false)', 'normalApprox_(belief.getItems())'))

b('f-calib', (CG, '  isCalibrated_ = false;\n}\n\n\nvoid ClusterGraph::project', '}\n\n\nvoid ClusterGraph::project'))
b('f-index', (PT, 'index_(0), levels_(dimension)', 'levels_(dimension)'))
b('f-levelsum', (PT, 'positions_(dimension), levelSum_(0)', 'positions_(dimension)'))
b('f-order', (BL, '  initializeBandwidth(levelMax);\n  initializeKnots();', '  initializeKnots();\n  initializeBandwidth(levelMax);'))
b('f-level', (BL, '  level_ = level;\n', ''), (BL, '  initializeSplineCoefficients();\n', '  initializeSplineCoefficients();\n  level_ = level;\n'))
b('f-level2', (BL, '  level_ = level;\n', ''))
b('f-numfixed', (G, 'numObservations_(response.size()), numFixed_(X.cols()),', 'numObservations_(response.size()),'))
b('f-const', (NB, '''	  Eigen::MatrixXd::Zero(items.size(), items.size())),
  logNormalizingConstant_(0)''', '''	  Eigen::MatrixXd::Zero(items.size(), items.size()))'''))
b('f-over', (IF, '  integrateOver_(integrateOver), \n', '  '))

b('f-logmean', (IF, '  logValueAtMean_ = function_(normal_.getMean());\n', ''))
b('f-hdr', (H + 'SparseGrid.h', '  int d_;\n', ''), (H + 'SparseGrid.h', '  double bound_;', '  double bound_;\n  int d_;'))
b('f-d', (SG, 'k_(basis.getLevelMax()), d_(d), coefficients_(findNumGridPoints(d_, k_))', 'k_(basis.getLevelMax()), coefficients_(findNumGridPoints(d_, k_))'), (SG, '{\n  initialize(f, basis);\n}\n\nvoid', '{\n  d_ = d;\n  initialize(f, basis);\n}\n\nvoid'))
b('f-normalizer', (MN, 'mean_(dimension), precision_(dimension, dimension),\n  variance_(dimension, dimension), normalizer_(0)', 'mean_(dimension), precision_(dimension, dimension),\n  variance_(dimension, dimension)'))
b('f-bound', (SG, '  bound_ = maximumStoredValue;\n', ''))
b('ok-defcalib', (CG, 'ClusterGraph::ClusterGraph(): isCalibrated_(false)\n', 'ClusterGraph::ClusterGraph()\n'))
# B
b('b-le', (BI, 'i < mean.size()', 'i <= mean.size()'))
b('b-alias', (PT, '''  double ret = 1.0;
  auto d = levels_.size();
  for(auto t = d - d; t < d; ++t)''', '''  double ret = 1.0;
  auto d = levels_.size();
  for(auto t = d - d; t <= d; ++t)'''))
b('b-subset', (SE, '''    ret(i) = vector(subset.at(i)); 
''', '''    ret(i) = vector(subset[i + 1]); 
'''))
b('b-tail', (SE, 'target.tail(n - index) = source.tail(n - index);', 'target.tail(n - index + 1) = source.tail(n - index + 1);'))
b('b-level', (PT, '  if(levels_.back() < levelSum_) {', '  if(levels_.back() <= levelSum_) {'))
b('b-basis', (S + 'Basis.cpp', 'l < (levelMax + 1)', 'l < levelMax'))
b('b-coef', (BL, 'splineCoefficients_(4 * (1 << (1 + level)), 1 << level)', 'splineCoefficients_(4 * (1 << level), 1 << level)'))

b('b-ext', (IF, 'Vector xExt(x.size() + 1);', 'Vector xExt(x.size());'))


b('b-rel', (MB, 'remainingItems.erase(remainingItems.begin() + relativeItem);', 'remainingItems.erase(remainingItems.begin() + relativeItem + 1);'))
b('b-at0', (CG, '    int itemToEliminate = candidates.at(0);', '    int itemToEliminate = candidates.at(candidates.size());'))
b('b-store', (SG, 'coefficients_(findNumGridPoints(d_, k_))', 'coefficients_(findNumGridPoints(d_, k_) - 1)'))
b('b-last', (CG, 'clusters_.at(nClusters() - 1)', 'clusters_[nClusters()]'))
b('b-end', (IH, 'if(relativeItem != items.end())\n    return relativeItem - items.begin();\n  else\n    throw std::domain_error("item not contained in items");', 'return relativeItem - items.begin();'))
# M
b('m-find', (IH, 'if(std::find(subset.begin(), subset.end(), *i) == subset.end())', 'if(std::find(subset.begin(), items.end(), *i) == subset.end())'))
b('m-find2', (IH, 'if(std::find(subset.begin(), subset.end(), *i) == subset.end())', 'if(std::find(subset.begin(), subset.end(), *i) == items.end())'))
b('m-sort', (IH, 'std::sort(second.begin(), second.end());', 'std::sort(second.begin(), first.end());'))
b('m-union', (IH, 'second.begin(), second.end(),\n', 'second.begin(), first.end(),\n'))
b('m-copy', (CG, 'std::copy_if(beliefs.begin(), beliefs.end(),', 'std::copy_if(beliefs.begin(), containedBeliefs.end(),'))
# harmless
b('ok-autolazy', (SGT, 'Eigen::VectorXd z = inverseScale_ * (x - shift_);', 'auto z = inverseScale_ * (x - shift_);'))
b('ok-lp', (G, 'return (XBeta_ + LambdatThetaZt_.transpose() * x).array();', 'auto random = LambdatThetaZt_.transpose() * x;\n  return (XBeta_ + random).array();'))
b('ok-constref', (QR, 'auto nodes = rule.getNodes();', 'const auto& nodes = rule.getNodes();'))
b('ok-getref', (H + 'QuadratureRule.h', 'Eigen::ArrayXd getNodes() const;', 'const Eigen::ArrayXd& getNodes() const;'), (QR, 'Eigen::ArrayXd QuadratureRule::getNodes() const', 'const Eigen::ArrayXd& QuadratureRule::getNodes() const'))
b('ok-lambda', (SS, 'auto fModified = [f, this]', 'auto fModified = [&f, this]'))
b('ok-lambda2', (IF, 'function_(function), ', 'function_([function](const Vector& x) { return function(x); }), '))
b('ok-decl', (CG, 'int itemToEliminate = candidates.at(0);', 'int itemToEliminate;\n    itemToEliminate = candidates.at(0);'))
b('ok-branch', (PT, '  bool success;\n  if(positions_', '  bool success;\n  int unused;\n  if(positions_'))
b('ok-first', (QR, '''  Eigen::ArrayXd ret = Eigen::ArrayXd::Zero(d);
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {''', '''  Eigen::ArrayXd ret(d);
  ret.setZero();
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {'''))
b('ok-memo', (H + 'Basis.h', '  int levelMax_;', '  int levelMax_;\n  mutable bool known_ = false;\n  mutable double last_;'), (S + 'Basis.cpp', 'return basisLevels_[level].getKnot(position);', 'if(!known_) { last_ = basisLevels_[level].getKnot(position); known_ = true; }\n  last_ = basisLevels_[level].getKnot(position);\n  return last_;'))
b('ok-noobs', (G, 'numObservations_(response.size()), numFixed_(X.cols()),', 'numFixed_(X.cols()),'))
b('ok-levelsum', (PT, 'positions_(positions), levelSum_(0)', 'positions_(positions)'))
b('ok-iter', (CG, '    auto clusterItems = cluster.getItems();\n', '    auto allItems = cluster.getItems();\n    std::vector<int> clusterItems(allItems.begin(), allItems.end());\n'))
b('ok-push', (CG, 'auto newClusterId = clusters_.size();\n    clusters_.push_back(cluster);', 'auto newClusterId = clusters_.size();\n    clusters_.push_back(cluster);\n    const auto& added = clusters_.back();\n    if(added.getItems().empty())\n      throw std::logic_error("empty cluster");'))
b('ok-eval', (G, 'return LambdatThetaZt_ * family.evaluateDerivative(linearPredictor, response_, weights_).matrix();', 'Eigen::ArrayXd slope = family.evaluateDerivative(linearPredictor, response_, weights_);\n  auto asMatrix = slope.matrix();\n  return LambdatThetaZt_ * asMatrix;'))
b('ok-minmax', (SG, '  double maximumStoredValue;\n', '  double maximumStoredValue;\n  bool any = false;\n'), (SG, 'if((i ==0) || (value > maximumStoredValue))', 'if(!any || (value > maximumStoredValue))'), (SG, '      maximumStoredValue = value;\n', '      { maximumStoredValue = value; any = true; }\n'))
b('ok-calib', (CG, '(const std::vector<MixedContinuousBelief>& beliefs)\n{\n  auto', '(const std::vector<MixedContinuousBelief>& beliefs): isCalibrated_(false)\n{\n  auto'))
b('ok-twophase', (H + 'QuadratureRule.h', '  QuadratureRule();', '  QuadratureRule();\n  void prepare(int n) { count_ = n; }\n  int count() const { return count_; }\n  int count_;'))
for k in [k for k, v in B.items() if v is None]:
    del B[k]


def one(name):
    import cparse, lifetime
    d = tempfile.mkdtemp(prefix='bl')
    try:
        subprocess.run('cp -r /repo/src /repo/inst %s/; rm -f %s/src/*.o %s/src/*.so' % (d, d, d), shell=True, check=True)
        for file, a, c in B[name]:
            q = os.path.join(d, file)
            t = open(q).read()
            if a not in t:
                return name, 'NOT APPLICABLE', [file + ': ' + a]
            open(q, 'w').write(t.replace(a, c, 1))
        p = cparse.parse(d)
        if p['errors']:
            return name, 'PARSE', [p['errors'][0][:400]]
        out = []
        try:
            lifetime.analyse(p, lambda *a: out.append(a), cparse.parse(os.path.join(HERE, '..', 'ref', 'cpp')))
        except Exception as e:
            import traceback
            return name, 'CRASH', [traceback.format_exc()[-600:]]
        v = [x for x in out if x[0]]
        return name, 'reported' if v else 'undecided' if out else 'quiet', v or out
    finally:
        shutil.rmtree(d)


def main():
    sel = [n for n in (sys.argv[1:] or B)]
    bad = 0
    with ProcessPoolExecutor(5) as ex:
        for name, got, v in ex.map(one, sel):
            ok = got in ('quiet', 'undecided') if name.startswith('ok-') else got == 'reported'
            bad += not ok
            print('  ' if ok else '##', name, got, *[str(x)[:230] for x in v[:3]], sep=' | ')
    print(bad, 'not as expected of', len(sel))


if __name__ == '__main__':
    main()
