// The public headers of the library under test.
#pragma once
#include "shiva/common/CArray.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/MultiIndex.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/ShivaMacros.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/types.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
