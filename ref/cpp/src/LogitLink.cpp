#include "LogitLink.h"

LogitLink::LogitLink()
{
}

Eigen::ArrayXd LogitLink::computeMean(const Eigen::ArrayXd& linearPredictor) const
{
  // written so that exp(linearPredictor) overflowing doesn't give NaN
  return 1 / (1 + exp(-linearPredictor));
}

// The derivatives are in terms of p, the mean, and q = 1 - p,
// each computed without cancellation or overflow.

Eigen::ArrayXd LogitLink::computeMeanDerivative(const Eigen::ArrayXd& linearPredictor) const
{
  Eigen::ArrayXd p = computeMean(linearPredictor);
  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q;
}

Eigen::ArrayXd LogitLink::computeMeanSecondDerivative(const Eigen::ArrayXd& linearPredictor) const
{
  Eigen::ArrayXd p = computeMean(linearPredictor);
  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q * (q - p);
}

Eigen::ArrayXd LogitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& linearPredictor) const
{
  Eigen::ArrayXd p = computeMean(linearPredictor);
  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q * (1 - 6 * p * q);
}

Eigen::ArrayXd LogitLink::computeMeanFourthDerivative(const Eigen::ArrayXd& linearPredictor) const
{
  Eigen::ArrayXd p = computeMean(linearPredictor);
  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q * (q - p) * (1 - 12 * p * q);
}

std::string LogitLink::getName() const
{
  return "logit";
}
