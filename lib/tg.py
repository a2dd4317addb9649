"""Builders for small real objects of the planner."""
import math

from terragraph_planner.common.configuration.configs import (
    DeviceData,
    LOSParams,
    OptimizerParams,
    SectorParams,
)
from terragraph_planner.common.configuration.enums import (
    DeviceType,
    LinkType,
    LocationType,
    PolarityType,
    SectorType,
    SiteType,
    StatusType,
)
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import DetectedSite, Site
from terragraph_planner.common.topology_models.topology import Topology

CN, DN, POP = SiteType.CN, SiteType.DN, SiteType.POP
PROPOSED, EXISTING, CANDIDATE, UNAVAILABLE, UNREACHABLE = (
    StatusType.PROPOSED,
    StatusType.EXISTING,
    StatusType.CANDIDATE,
    StatusType.UNAVAILABLE,
    StatusType.UNREACHABLE,
)
STATUSES = list(StatusType)
ODD, EVEN, UNASSIGNED = PolarityType.ODD, PolarityType.EVEN, PolarityType.UNASSIGNED

EPSG = 32631
X0, Y0 = 500000.0, 5300000.0


def dn_device(sku="DN_DEV", nodes=4, sectors=1, hsr=70.0, capex=250.0, **sp):
    return DeviceData(
        device_sku=sku,
        sector_params=SectorParams(
            number_sectors_per_node=sectors, horizontal_scan_range=hsr, **sp
        ),
        node_capex=capex,
        number_of_nodes_per_site=nodes,
        device_type=DeviceType.DN,
    )


def cn_device(sku="CN_DEV", sectors=1, hsr=70.0, capex=150.0, **sp):
    return DeviceData(
        device_sku=sku,
        sector_params=SectorParams(
            number_sectors_per_node=sectors, horizontal_scan_range=hsr, **sp
        ),
        node_capex=capex,
        number_of_nodes_per_site=1,
        device_type=DeviceType.CN,
    )


DN_DEV = dn_device()
CN_DEV = cn_device()


def utm(x, y, alt=None, epsg=EPSG):
    return GeoLocation(utm_x=X0 + x, utm_y=Y0 + y, utm_epsg=epsg, altitude=alt)


def site(
    typ=DN,
    x=0.0,
    y=0.0,
    alt=0.0,
    status=CANDIDATE,
    name="",
    device=None,
    loc=LocationType.UNKNOWN,
    building=None,
    subs=None,
    location=None,
):
    return Site(
        site_type=typ,
        location=location or utm(x, y, alt),
        device=device or (CN_DEV if typ == CN else DN_DEV),
        status_type=status,
        location_type=loc,
        building_id=building,
        name=name,
        number_of_subscribers=subs,
    )


def opt_params(**kw):
    kw.setdefault("device_list", [DN_DEV, CN_DEV])
    return OptimizerParams(**kw)
