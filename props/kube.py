"""Stand-ins for kubernetes_asyncio's API classes, served by props.c16.Server.

Imported before the code under test, so that it finds these instead of the real ones.
"""

import kubernetes_asyncio.client
import kubernetes_asyncio.client.api
import kubernetes_asyncio.watch
from kubernetes_asyncio.client import models
from kubernetes_asyncio.client.rest import ApiException

from props.faults import Everything
from props.versions import version

SERVERS = {}  # by namespace; None: all namespaces; "services": all services, "others", "newer": other pods
CALLS = []  # (what, namespace)
CONFIG_MAPS = []  # the one server of config maps


class CoreV1Api:
    def __init__(self, api_client=None):
        pass

    async def list_namespaced_pod(self, namespace, **kwargs):
        CALLS.append(("list", namespace))
        return await SERVERS[namespace].list(kwargs)

    async def list_pod_for_all_namespaces(self, **kwargs):
        CALLS.append(("list", None))
        assert "namespace" not in kwargs
        return await SERVERS[None].list(kwargs)

    async def list_service_for_all_namespaces(self, **kwargs):
        CALLS.append(("list", "services"))
        assert "namespace" not in kwargs
        return await SERVERS["services"].list(kwargs)

    async def list_other_for_all_namespaces(self, **kwargs):
        CALLS.append(("list", "others"))
        return await SERVERS["others"].list(kwargs)

    async def list_newer_for_all_namespaces(self, **kwargs):
        CALLS.append(("list", "newer"))
        return await SERVERS["newer"].list(kwargs)

    async def read_namespaced_config_map(self, name, namespace, **kwargs):
        return await CONFIG_MAPS[0].read(namespace, name)

    async def create_namespaced_config_map(self, namespace, body, **kwargs):
        return await CONFIG_MAPS[0].create(namespace, body)

    async def replace_namespaced_config_map(self, name, namespace, body, **kwargs):
        return await CONFIG_MAPS[0].replace(namespace, name, body)


class Watch:
    def __init__(self, return_type=None):
        pass

    def stream(self, func, *args, **kwargs):
        everywhere = func.__name__.endswith("_for_all_namespaces")
        if everywhere:
            namespace = {"list_service_for_all_namespaces": "services", "list_other_for_all_namespaces": "others", "list_newer_for_all_namespaces": "newer"}.get(func.__name__)
        else:
            namespace = args[0] if args else kwargs["namespace"]
        assert not (everywhere and "namespace" in kwargs)
        CALLS.append(("watch", namespace))
        server = SERVERS[namespace]
        if server.cut:
            raise Everything("cut off")
        return server.stream(kwargs)


for module in (kubernetes_asyncio.client, kubernetes_asyncio.client.api):
    module.CoreV1Api = CoreV1Api
kubernetes_asyncio.watch.Watch = Watch


def reset():
    SERVERS.clear()
    CALLS.clear()
    CONFIG_MAPS[:] = [ConfigMaps()]


def pod(name, rv, namespace="ns"):
    return models.V1Pod(
        api_version="v1", kind="Pod",
        metadata=models.V1ObjectMeta(name=name, namespace=namespace, resource_version=str(rv), uid="u"),
    )


def service(name, rv, namespace="ns"):
    return models.V1Service(
        api_version="v1", kind="Service",
        metadata=models.V1ObjectMeta(name=name, namespace=namespace, resource_version=str(rv), uid="u"),
    )


def serve(server, namespace=None):
    """Makes a props.c16.Server serve pods, or services."""
    make = service if namespace == "services" else pod
    server.make = lambda name: make(name, version(len(server.log) + 1), server.namespace)
    SERVERS[namespace] = server
    return server


class ConfigMaps:
    """The config maps of a server, with versions; `behave` may raise before a request is carried out, or return "lost"."""

    def __init__(self):
        self.maps, self.version, self.behave = {}, 0, None
        self.requests = []

    async def _before(self, *request):
        self.requests.append(request)
        if self.behave is not None:
            return await self.behave(*request)

    def put(self, namespace, name, annotations, data=None):
        self.version += 1
        self.maps[namespace, name] = (str(self.version), annotations, data)

    def view(self, namespace, name):
        version, annotations, data = self.maps[namespace, name]
        return models.V1ConfigMap(
            data=None if data is None else dict(data),
            metadata=models.V1ObjectMeta(
                name=name, namespace=namespace, resource_version=version, annotations=None if annotations is None else dict(annotations)
            ),
        )

    async def read(self, namespace, name):
        await self._before("read", namespace, name)
        if (namespace, name) not in self.maps:
            raise ApiException(status=404)
        return self.view(namespace, name)

    async def create(self, namespace, body):
        name = body.metadata.name
        await self._before("create", namespace, name)
        if (namespace, name) in self.maps:
            raise ApiException(status=409)
        self.put(namespace, name, body.metadata.annotations and dict(body.metadata.annotations), body.data)
        return self.view(namespace, name)

    async def replace(self, namespace, name, body):
        await self._before("replace", namespace, name, body.metadata.resource_version)
        if (namespace, name) not in self.maps:
            raise ApiException(status=404)
        if body.metadata.resource_version not in (None, self.maps[namespace, name][0]):
            raise ApiException(status=409)
        self.put(namespace, name, body.metadata.annotations and dict(body.metadata.annotations), body.data)
        return self.view(namespace, name)
