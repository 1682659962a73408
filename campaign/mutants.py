"""Changes that break a property: (id, properties, [(file, old, new)])."""

C = "pyvrp/cpp/"
S = "pyvrp/cpp/search/"

MUTANTS = [
    # C01: timing and schedule
    ("c01-depot-service-end", "C01", [(C + "Route.cpp",
     "                   depot.twLate,\n                   depot.serviceDuration);",
     "                   depot.twLate,\n                   tripIdx == 1 ? depot.serviceDuration : start.serviceDuration);")]),
    ("c01-release-trip", "C01", [(C + "Route.cpp",
     "releaseTimes.insert(releaseTimes.begin(), ds.releaseTime());\n\n            ds = ds.finaliseFront();",
     "ds = ds.finaliseFront();\n            releaseTimes.insert(releaseTimes.begin(), ds.releaseTime());\n")]),
    ("c01-startlate", "C01", [(C + "Route.cpp",
     "std::min(start.twLate, vehData.startLate),\n           start.serviceDuration);",
     "start.twLate,\n           start.serviceDuration);")]),
    ("c01-slack", "C01 C08", [(C + "DurationSegment.cpp",
     "return std::min(startLate() - startEarly(), prevSlack);",
     "return prevEndLate_ < startLate_ ? prevSlack : startLate() - startEarly();")]),
    ("c01-overtime", "C01 C02 C05", [(C + "Route.cpp",
     "overtime_ = std::max<Duration>(duration_ - vehData.shiftDuration, 0);",
     "overtime_ = std::max<Duration>(std::min(duration_, vehData.maxDuration) - vehData.shiftDuration, 0);")]),
    # C02: loads etc.
    ("c02-initial-trips", "C02", [(C + "Route.cpp",
     "ls = ls.finalise(vehData.capacity[dim]);",
     "ls = ls.finalise(vehData.capacity[dim] - (ls.delta() > vehData.capacity[dim] ? 1 : 0));")]),
    ("c02-shipment-prize", "C02 C03", [(C + "Route.cpp",
     "            prizes_ += data.shipment(activity.idx()).prize;\n            numShipments_++;",
     "            if (data.shipment(activity.idx()).required == false)\n                prizes_ += data.shipment(activity.idx()).prize;\n            numShipments_++;")]),
    ("c02-load-merge", "C08 C02", [(C + "LoadSegment.h",
     "std::max(first.increase_, first.delta_ + second.increase_),",
     "std::max(first.increase_, std::max<Load>(first.delta_, 0) + second.increase_),")]),
    # C03: solution
    ("c03-missing-group", "C03 C24", [(C + "Solution.cpp",
     "if (group.required && count == 0)", "if (group.required && count == 0 && group.size() > 1)")]),
    ("c03-eq-vehtype", "C03 C07", [(C + "Route.cpp",
     "vehicleType_ == other.vehicleType_", "numShipments_ == other.numShipments_")]),
    ("c03-unplanned", "C03", [(C + "Solution.cpp",
     "            unplanned_.emplace_back(Activity::ActivityType::PICKUP, shipment);\n            unplanned_.emplace_back(Activity::ActivityType::DELIVERY, shipment);",
     "            unplanned_.emplace_back(Activity::ActivityType::PICKUP, shipment);\n            if (shipmentData.required || numMissingShipments_ == 0)\n                unplanned_.emplace_back(Activity::ActivityType::DELIVERY, shipment);")]),
    ("c03-excess-dims", "C03 C05 C24", [(C + "Solution.cpp",
     "return std::any_of(excessLoad_.begin(),\n                       excessLoad_.end(),",
     "return std::any_of(excessLoad_.begin(),\n                       excessLoad_.begin() + std::min<size_t>(excessLoad_.size(), 2),")]),
    # C04
    ("c04-crossing", "C04", [(C + "Route.cpp",
     "if (pickupVisited != deliveryVisited)  // then a shipment crosses",
     "if (pickupVisited.count() > deliveryVisited.count() + 1)  // then a shipment crosses")]),
    ("c04-trips", "C04", [(C + "Route.cpp",
     "if (numTrips > vehData.maxTrips())", "if (numTrips > std::max<size_t>(vehData.maxTrips(), 2))")]),
    ("c04-usedveh", "C04", [(C + "Solution.cpp",
     "for (size_t vehType = 0; vehType != data.numVehicleTypes(); vehType++)\n        if (usedVehicles",
     "for (size_t vehType = 0; vehType + 1 < data.numVehicleTypes(); vehType++)\n        if (usedVehicles")]),
    ("c04-groupdup", "C04", [(C + "Solution.cpp",
     "        if (count > 1)\n        {", "        if (count > 1 && (group.required || count == static_cast<long>(group.size())))\n        {")]),
    # C05
    ("c05-round", "C05", [(C + "CostEvaluator.h",
     "        cost += loadPenalties_[dim] * excessLoads[dim].get();",
     "        cost += static_cast<int64_t>(loadPenalties_[dim]) * excessLoads[dim].get();")]),
    ("c05-int", "C05", [(C + "CostEvaluator.h",
     "return static_cast<Cost>(timeWarp.get() * twPenalty_);",
     "return static_cast<Cost>(static_cast<float>(timeWarp.get()) * twPenalty_);")]),
    # C06
    ("c06-release", "C06", [(C + "Client.cpp",
     "if (releaseTime > twLate)", "if (releaseTime > twLate && twEarly > 0)")]),
    ("c06-pad", "C06", [(C + "Client.cpp",
     "delivery(pad(delivery, pickup)),\n      pickup(pad(pickup, delivery)),",
     "delivery(delivery.empty() ? pad(delivery, pickup) : delivery),\n      pickup(pad(pickup, delivery)),")]),
    ("c06-replace", "C06", [(C + "VehicleType.cpp",
     "            startLate.value_or(this->startLate),\n            initialLoad",
     "            startLate.has_value() ? startLate : (twLate.has_value() ? std::optional<Duration>{} : std::optional<Duration>{this->startLate}),\n            initialLoad")]),
    ("c06-hastw", "C06", [(C + "ProblemData.cpp",
     "return hasTimeWindow(shipment.pickup)\n                                    || hasTimeWindow(shipment.delivery);",
     "return hasTimeWindow(shipment.pickup);")]),
    ("c06-diag", "C06", [(C + "ProblemData.cpp",
     "            if (dur(loc, loc) != 0)\n", "            if (idx == 0 && dur(loc, loc) != 0)\n")]),
    ("c06-maxdur", "C06 C01", [(C + "VehicleType.cpp",
     "maxOvertime < std::numeric_limits<Duration>::max()\n                                               - shiftDuration",
     "maxOvertime < std::numeric_limits<Duration>::max() / 2 - shiftDuration / 2")]),
    # C07
    ("c07-client-eq", "C07", [(C + "Client.cpp",
     "        && group == other.group\n        && std::strcmp(name, other.name) == 0;",
     "        && std::strcmp(name, other.name) == 0;")]),
    ("c07-veh-eq", "C07", [(C + "VehicleType.cpp",
     "        && maxReloads == other.maxReloads\n", "")]),
    ("c07-route-pickle", "C07", [(C + "bindings.cpp",
     "t[14].cast<pyvrp::Duration>(),", "t[13].cast<pyvrp::Duration>(),")]),
    # C08
    ("c08-prevend", "C08 C09 C01", [(C + "DurationSegment.h",
     "            cumTimeWarp_ + finalised.timeWarp(),\n            finalised.endLate()};",
     "            cumTimeWarp_ + finalised.timeWarp(),\n            std::max(finalised.endLate(), prevEndLate_ == std::numeric_limits<Duration>::max() ? finalised.endLate() : prevEndLate_)};")]),
    ("c08-net", "C08 C01", [(C + "DurationSegment.h",
     "+ (netDuration > maxDuration ? netDuration - maxDuration : 0);",
     "+ (duration() > maxDuration ? duration() - std::max(maxDuration, timeWarp) : 0);")]),
    # C09
    ("c09-remove-trip", "C09", [(S + "Route.cpp",
     "        if (isDepot)  // then we need to decrease each following trip index\n            nodes[after]->trip_--;",
     "        if (isDepot && !nodes[after]->isDepot())  // then we need to decrease each following trip index\n            nodes[after]->trip_--;")]),
    ("c09-swap-trip", "C09", [(S + "Route.cpp",
     "    std::swap(first->trip_, second->trip_);\n", "    if (first->route_ != second->route_)\n        std::swap(first->trip_, second->trip_);\n")]),
    ("c09-realloc", "C09", [(S + "Route.cpp",
     "        for (; it != depots_.end(); ++it)\n            nodes[it->pos()] = &*it;",
     "        if (it != depots_.end())\n            nodes[it->pos()] = &*it;")]),
    ("c09-load", "C09", [(S + "Route.cpp",
     "loadAt[dim][prev], loadAfter[dim][idx].finalise(capacity));",
     "loadAt[dim][prev], loadAfter[dim][idx].finalise(load_[dim] > capacity ? capacity : load_[dim]));")]),
    # C10
    ("c10-cap-order", "C10 C11", [(C + "CostEvaluator.h",
     "    if constexpr (!exact)\n        if (out >= 0)\n            return false;\n\n    if (uRoute->hasDurationCost())\n    {\n        auto const [cost, timeWarp] = uProposal.duration();\n        out += cost;",
     "    if constexpr (!exact)\n        if (out >= 0)\n            return false;\n\n    if (uRoute->hasDurationCost() || uRoute == vRoute)\n    {\n        auto const [cost, timeWarp] = uProposal.duration();\n        out += vRoute->hasDurationCost() || timeWarp > 0 ? cost : cost;\n        if (!vRoute->hasDurationCost() && out >= 0)\n            return false;")]),
    ("c10-relocate-cache", "C10 C11", [(S + "Relocate.h",
     "        if (node->isPickup())\n            hasCachedRemoveCost_[data.numClients() + node->idx()] = false;",
     "        if (node->isPickup() && node->trip() == 0)\n            hasCachedRemoveCost_[data.numClients() + node->idx()] = false;")]),
    ("c10-swap-sym", "C10", [(S + "Swap.h",
     "        if (std::make_pair(U->idx(), U->type())\n            >= std::make_pair(V->idx(), V->type()))",
     "        if (U->idx() >= V->idx())")]),
    ("c10-relocate-empty", "C10 C11", [(S + "Relocate.h",
     "if (uRoute->numClients() + 2 * uRoute->numShipments() == N)",
     "if (uRoute->numClients() + 2 * uRoute->numShipments() <= N || uRoute->numClients() == N)")]),
    ("c10-tails-empties", "C10 C11", [(S + "SwapTails.cpp",
     "        if (V->isStartDepot())  // this move empties V's route, so we subtract",
     "        if (V->isStartDepot() && vRoute->numTrips() == 0)  // this move empties V's route, so we subtract")]),
    ("c10-overlap", "C10", [(S + "Relocate.h",
     "return U->pos() <= V->pos() && V->pos() <= U->pos() + N - 1;",
     "return U->pos() <= V->pos() && V->pos() <= U->pos() + N;")]),
    # C11
    ("c11-lasttest", "C11", [(S + "LocalSearch.cpp",
     "if (uUpdate > lastTest || vUpdate > lastTest)", "if (uUpdate > lastTest || (vUpdate > lastTest && U->route() != nullptr))")]),
    ("c11-lasttest2", "C11", [(S + "LocalSearch.cpp",
     "            lastTest_[idx] = numUpdates_;\n\n            applyUnaryOps(U, costEvaluator);",
     "            applyUnaryOps(U, costEvaluator);\n            lastTest_[idx] = numUpdates_;\n")]),
    ("c11-group-last", "C11", [(S + "LocalSearch.cpp",
     "if (node.route() && groupCount[idx] > 1)  // must remove", "if (node.route() && groupCount[idx] > 1 && !group.required)  // must remove")]),
    ("c11-startdepot", "C11", [(S + "LocalSearch.cpp",
     "                    if (p(V)->isStartDepot()\n                        && applyBinaryOps", "                    if (p(V)->isStartDepot() && U->route() != V->route()\n                        && applyBinaryOps")]),
    ("c11-emptybreak", "C11", [(S + "LocalSearch.cpp",
     "        if (empty != end && applyBinaryOps(U, (*empty)[0], costEvaluator))\n            break;",
     "        if (empty == end || applyBinaryOps(U, (*empty)[0], costEvaluator))\n            break;")]),
    ("c11-statsreset", "C11", [(S + "LocalSearch.cpp",
     "    numUpdates_ = 0;\n\n    solution_.load(solution);", "    if (exhaustive)\n        numUpdates_ = 0;\n\n    solution_.load(solution);")]),
    # C13
    ("c13-eq", "C13 C11", [(S + "Solution.cpp",
     "    for (auto const &activity : pyvrp)\n        if (search[idx++]->activity() != activity)\n            return false;",
     "    for (auto const &activity : pyvrp)\n        if (search[idx++]->idx() != activity.idx())\n            return false;")]),
    ("c13-insert-before", "C13", [(S + "Solution.cpp",
     "for (auto *V : {p(neighbour), neighbour})  // before or after neighbour",
     "for (auto *V : {neighbour->isPickup() ? neighbour : p(neighbour), neighbour})  // before or after neighbour")]),
    ("c13-clear", "C13 C11", [(S + "Solution.cpp",
     "        firstOfType = firstOfNextType;", "        firstOfType += numAvailable > 0 ? numAvailable - (vehType + 2 == data_.numVehicleTypes() && numAvailable > 2) : 0;")]),
    ("c13-empty-better", "C13", [(S + "Solution.cpp",
     "            pickupAfter = (*empty)[0];\n            deliveryPos = 1;\n            bestCost = deltaCost;\n            break;",
     "            pickupAfter = (*empty)[0];\n            bestCost = deltaCost;\n            break;")]),
]

P = "pyvrp/"

MUTANTS += [
    # C12: perturbation and search space
    ("c12-randint", "C12", [(S + "PerturbationManager.cpp",
     "rng.randint(range + 1)", "rng.randint(std::max<size_t>(range, 1))")]),
    ("c12-delivery-mark", "C12", [(S + "PerturbationManager.cpp",
     "            searchSpace.markPromising(delivery);\n            route->remove(delivery->pos());",
     "            route->remove(delivery->pos());")]),
    ("c12-perturbed-idx", "C12", [(S + "PerturbationManager.cpp",
     "                             : solution.clients.size() + node->idx();",
     "                             : solution.shipments.size() + node->idx();")]),
    ("c12-delivery-skip", "C12", [(S + "PerturbationManager.cpp",
     "            group(node->isDelivery() ? node - 1 : node);",
     "            if (!node->isDelivery() || node->route())\n                group(node->isDelivery() ? node - 1 : node);")]),
    ("c12-promising", "C12", [(S + "SearchSpace.cpp",
     "        promising_[promising_.size() - activity.idx() - 1] = true;",
     "        promising_[promising_.size() - activity.idx() - 1] = activity.isPickup() || !promising_[activity.idx()];")]),
    ("c12-mark-next", "C12", [(S + "SearchSpace.cpp",
     "    if (!node->isEndDepot() && (n(node)->isClient() || n(node)->isShipment()))",
     "    if (!node->isEndDepot() && !node->isDepot() && (n(node)->isClient() || n(node)->isShipment()))")]),
    ("c12-self", "C12", [(S + "SearchSpace.cpp",
     "if (std::any_of(beginPos, endPos, pred))", "if (neighbourhood.size() > 1 && std::any_of(beginPos, endPos, pred))")]),
    ("c12-return", "C12", [(S + "PerturbationManager.cpp",
     "                if (!movesLeft)\n                    return;\n",
     "                if (!movesLeft)\n                    break;\n")]),
    # C13 more
    ("c13-bestcost", "C13", [(S + "Solution.cpp",
     "    if (required || bestCost < 0)\n    {\n        auto *route = pickupAfter->route();",
     "    if (required || bestCost <= 0)\n    {\n        auto *route = pickupAfter->route();")]),
    ("c13-client-noprize", "C13", [(S + "Solution.cpp",
     "    Cost deltaCost = -client.prize;\n", "    Cost deltaCost = client.required ? 0 : -client.prize;\n")]),
    ("c13-between-stop", "C13", [(S + "Solution.cpp",
     "            for (auto const *node = n(V); !node->isDepot();\n                 node = n(node), ++between)",
     "            for (auto const *node = n(V); !node->isDepot() && !n(node)->isReloadDepot();\n                 node = n(node), ++between)")]),
    # C14
    ("c14-seen", "C14", [(S + "neighbourhood.cpp",
     "        auto const key = std::make_tuple(vehType.unitDistanceCost,\n                                         vehType.unitDurationCost,\n                                         vehType.profile);",
     "        auto const key = std::make_tuple(vehType.unitDistanceCost,\n                                         vehType.unitDistanceCost,\n                                         vehType.profile);")]),
    ("c14-wait", "C14", [(S + "neighbourhood.cpp",
     "auto const minWait = toEarly - edgeDur - frmServ - frmLate;",
     "auto const minWait = toEarly - edgeDur - frmLate;")]),
    ("c14-durwait", "C14", [(S + "neighbourhood.cpp",
     "auto const duration = edgeDur + std::max(minWait, 0.0);",
     "auto const duration = edgeDur;")]),
    ("c14-deliv", "C14", [(S + "neighbourhood.cpp",
     "                auto const &to = data.shipment(del).delivery;\n                prox(frm, idx) = std::min({cost(shipment.pickup, to),\n                                           cost(shipment.delivery, to),\n                                           prox(frm, idx)});",
     "                auto const &to = data.shipment(del).delivery;\n                prox(frm, idx) = std::min({cost(shipment.pickup, to),\n                                           prox(frm, idx)});")]),
    ("c14-infeas", "C14", [(S + "neighbourhood.cpp",
     "if (frmEarly + frmServ + edgeDur > toLate)", "if (frmEarly + frmServ + edgeDur >= toLate)")]),
    ("c14-group", "C14", [(S + "neighbourhood.cpp",
     "prox(frmClient, toClient) = std::numeric_limits<double>::max();",
     "prox(frmClient, toClient) += group.required ? std::numeric_limits<double>::max() : 0;")]),
    # C15
    ("c15-late-init", "C15", [(P + "IteratedLocalSearch.py",
     "            late_cost = cost_eval.penalised_cost(self._init)\n",
     "            late_cost = cost_eval.penalised_cost(self._init if iters < 2 else best)\n")]),
    ("c15-infeas-best", "C15", [(P + "IteratedLocalSearch.py",
     "                    if cand.is_feasible():\n                        best = cand",
     "                    if cand.is_feasible():\n                        best = cand\n                    else:\n                        cand = best")]),
    ("c15-restart-hist", "C15", [(P + "IteratedLocalSearch.py",
     "                history.clear()\n\n                curr = best", "                curr = best")]),
    ("c15-skip", "C15", [(P + "IteratedLocalSearch.py",
     "            if curr_cost < late_cost or late is None:", "            if curr_cost < late_cost:")]),
    ("c15-costeval", "C15", [(P + "IteratedLocalSearch.py",
     "            self._pm.register(cand)\n", "            self._pm.register(cand)\n            cost_eval = self._pm.cost_evaluator()\n")]),
    ("c15-accept-eq", "C15", [(P + "IteratedLocalSearch.py",
     "if cand_cost < late_cost or cand_cost < curr_cost:", "if cand_cost < late_cost or cand_cost <= curr_cost:")]),
    ("c15-register", "C15", [(P + "IteratedLocalSearch.py",
     "                    cand = self._search(cand, cost_eval, exhaustive=True)\n",
     "                    cand = self._search(cand, cost_eval, exhaustive=True)\n                    self._pm.register(cand)\n")]),
    # C16
    ("c16-tol", "C16", [(P + "PenaltyManager.py",
     "if abs(diff) < self._params.feas_tolerance:", "if abs(diff) < self._params.feas_tolerance or penalty == self._params.max_penalty:")]),
    ("c16-clip", "C16", [(P + "PenaltyManager.py",
     "            new_penalty = self._params.penalty_decrease * penalty\n",
     "            return self._params.penalty_decrease * penalty\n")]),
    ("c16-shared", "C16", [(P + "PenaltyManager.py",
     "self._viol_lists: list[list[int]] = [[] for _ in self._penalties]",
     "self._viol_lists: list[list[int]] = [[] for _ in initial_penalties[0]] + [[]] * 2")]),
    ("c16-window", "C16", [(P + "PenaltyManager.py",
     "        viol_list.clear()\n", "        del viol_list[: max(len(viol_list) - 1, 1)]\n")]),
    # C17
    ("c17-noimpr", "C17", [(P + "stop/NoImprovement.py",
     "best_cost < self._target", "best_cost <= self._target - 1 or (best_cost < 0)")]),
    ("c17-any", "C17", [(P + "stop/MultipleCriteria.py",
     "return any(crit(best_cost) for crit in self.criteria)",
     "return any([crit(best_cost) for crit in self.criteria[:3]])")]),
    ("c17-maxrt", "C17", [(P + "stop/MaxRuntime.py",
     "            self._start_runtime = time.perf_counter()\n",
     "            self._start_runtime = time.perf_counter()\n            return False\n")]),
    # C18
    ("c18-idx", "C18", [(P + "Model.py",
     "        if item is other:\n", "        if item is other or item == other:\n")]),
    ("c18-profdiag", "C18", [(P + "Model.py",
     "            prof_duration = base_duration.copy()\n", "            prof_duration = base_duration if not profile.edges else base_duration.copy()\n            np.fill_diagonal(prof_duration, 0)\n")]),
    ("c18-missing", "C18", [(P + "Model.py",
     "        fill_value = min(missing_value, MAX_VALUE)\n        base_distance", "        fill_value = min(missing_value, MAX_VALUE) if self._edges else MAX_VALUE\n        base_distance")]),
    ("c18-fromdata-copy", "C18", [(P + "Model.py",
     "        self._clients = data.clients()\n", "        self._clients = data.clients()[: data.num_clients]\n"),]),
    ("c18-group-first", "C18", [(P + "Model.py",
     "            client_idx = len(self._clients)\n", "            client_idx = self._groups[group_idx].clients[-1] + 1 if len(group) else len(self._clients)\n")]),
    ("c18-startlate", "C18", [(P + "Model.py",
     "            start_late=start_late,\n", "            start_late=start_late or None,\n")]),
    # C19
    ("c19-allowed", "C19", [(P + "read.py",
     "dist_mat[:, ~allowed] = dist_mat[~allowed, :] = MAX_VALUE", "dist_mat[:, ~allowed] = MAX_VALUE")]),
    ("c19-veh-tw", "C19", [(P + "read.py",
     "                tw_early=time_windows[depot][0],\n                tw_late=time_windows[depot][1],",
     "                tw_early=time_windows[depot][0],\n                tw_late=time_windows[0][1],")]),
    ("c19-groups-filter", "C19", [(P + "read.py",
     "        return [group for group in raw_groups if len(group) > 1]", "        return [group for group in raw_groups if len(group) > 2 or len(raw_groups) < 3 and len(group) > 1]")]),
    ("c19-backhaul", "C19", [(P + "read.py",
     "distances[np.ix_(backhaul, linehaul)] = MAX_VALUE", "distances[np.ix_(backhaul, linehaul & ~backhaul[0])] = MAX_VALUE")]),
    ("c19-reload", "C19", [(P + "read.py",
     "        return [tuple(idx - 1 for idx in depots) for depots in reload_depots]",
     "        return [tuple({idx - 1 for idx in depots}) for depots in reload_depots]")]),
    ("c19-dimacs", "C19", [(P + "read.py",
     "\"dimacs\": lambda vals: (10 * vals).astype(np.int64),", "\"dimacs\": lambda vals: 10 * vals.astype(np.int64) + (10 * (vals % 1)).astype(np.int64),")]),
    ("c19-release", "C19", [(P + "read.py",
     "        release_times = self.instance.get(\"release_time\", 0)\n", "        release_times = np.maximum(self.instance.get(\"release_time\", 0), 0)\n        if self.num_depots > 1:\n            release_times = np.minimum(release_times, self.time_windows()[:, 1])\n")]),
    # C20
    ("c20-empty-route", "C20", [(P + "read.py",
     "        if not route:\n            continue\n\n        activities", "        if not route:\n            continue\n\n        route = list(dict.fromkeys(route))\n        activities")]),
    ("c20-next", "C20", [(P + "cli.py",
     "            (int(vehicle) for vehicle in vehicle_type.name.split(\",\"))",
     "            iter(range(int(vehicle_type.name.split(\",\")[0]), data.num_vehicles))")]),
    ("c20-single", "C20", [(P + "cli.py",
     "        return visits[1:-1]  # skip start and end depots", "        ends = {visits[0], visits[-1]}\n        return [v for v in visits[1:-1] if v not in ends]")]),
    ("c20-stats", "C20", [(P + "cli.py",
     "        result.stats.to_csv(stats_dir / (instance_name + \".csv\"))", "        result.stats.to_csv((stats_dir / instance_name).with_suffix(\".csv\"))")]),
    # C21
    ("c21-bound", "C21", [(P + "minimise_fleet.py",
     "        demand = max(delivery, pickup)\n", "        demand = delivery + pickup\n")]),
    ("c21-trips", "C21", [(P + "minimise_fleet.py",
     "vehicle_type.capacity[dim] * vehicle_type.max_trips", "vehicle_type.capacity[dim] * min(vehicle_type.max_trips, 2)")]),
    ("c21-feas", "C21", [(P + "minimise_fleet.py",
     "if stop(cost_eval.cost(best)) or not best.is_feasible():", "if stop(cost_eval.cost(best)) or not best.is_complete():")]),
    ("c21-jump", "C21", [(P + "minimise_fleet.py",
     "            num_available = max(best.num_routes(), 1)\n", "            num_available = max(best.num_routes() - 1, lower_bound)\n")]),
    # C22
    ("c22-bool", "C22", [(P + "Statistics.py",
     "                        datum[name] = field2type[name](value)  # type: ignore", "                        datum[name] = field2type[name](float(value))  # type: ignore")]),
    ("c22-ring", "C22 C15", [(P + "RingBuffer.py",
     "        self._buffer = [None for _ in range(self.maxlen)]\n        self._idx = 0", "        self._buffer = [None for _ in range(self.maxlen)]\n        self._idx %= self.maxlen")]),
    ("c22-cost", "C22", [(P + "Result.py",
     "        return CostEvaluator([0] * num_load_dims, 0, 0).cost(self.best)", "        cost = CostEvaluator([0] * num_load_dims, 0, 0).cost(self.best)\n        return cost or self.best.fixed_vehicle_cost()")]),
    ("c22-runtime", "C22", [(P + "Statistics.py",
     "                row[\"runtime\"] = runtime\n", "                row[\"runtime\"] = round(runtime, 9)\n")]),
    # C23
    ("c23-count", "C23", [(C + "DynamicBitset.cpp",
     "    for (size_t idx = 0; idx != data_.size(); ++idx)\n        data_[idx] ^= other.data_[idx];",
     "    for (size_t idx = 0; idx != data_.size(); ++idx)\n        data_[idx] = idx < 2 ? data_[idx] ^ other.data_[idx] : data_[idx] | other.data_[idx];")]),
    ("c23-mono", "C23", [(C + "PiecewiseLinearFunction.h",
     "    for (size_t idx = 0; idx != breakpoints_.size(); ++idx)\n    {\n        auto const breakpoint",
     "    for (size_t idx = 0; idx + 1 < breakpoints_.size(); ++idx)\n    {\n        auto const breakpoint")]),
    ("c23-slope", "C23", [(C + "PiecewiseLinearFunction.h",
     "if (dy % dx != 0)", "if (dy > 0 && dy % dx != 0)")]),
    ("c23-shuffle", "C23 C12", [(C + "RandomNumberGenerator.h",
     "std::swap(first[idx], first[randint(idx + 1)]);", "std::swap(first[idx], first[randint(idx)]);")]),
    ("c23-stoul", "C23", [(C + "Activity.cpp",
     "std::stoul(description.substr(1))", "std::stoi(description.substr(1))")]),
    # C24
    ("c24-init", "C24", [(P + "solve.py",
     "    init = initial_solution\n    if init is None:", "    init = initial_solution\n    if init is None or init.empty():")]),
    ("c24-initls", "C24", [(P + "solve.py",
     "    algo = IteratedLocalSearch(", "    if not init.is_complete():\n        init = ls(init, pm.cost_evaluator(), exhaustive=True)\n\n    algo = IteratedLocalSearch(")]),
    ("c24-rng", "C24", [(P + "solve.py",
     "    rng = RandomNumberGenerator(seed=seed)\n", "    rng = RandomNumberGenerator(seed=seed + int(collect_stats))\n")]),
    # C25
    # C26
    ("c26-eq", "C26", [(P + "solve.py",
     "            and self.perturbation == other.perturbation\n", "")]),
    ("c26-display", "C26", [(P + "solve.py",
     "            data.get(\"display_interval\", 5.0),\n", "            data.get(\"display_interval\") or 5.0,\n")]),
    ("c26-emptyops", "C26", [(P + "solve.py",
     "        if \"operators\" in data:\n", "        if data.get(\"operators\"):\n")]),
    ("c26-unknown", "C26", [(P + "solve.py",
     "operators = [getattr(pyvrp.search, op) for op in data[\"operators\"]]", "operators = [op for op in OPERATORS if op.__name__ in data[\"operators\"]]")]),
    ("c26-perturb", "C26", [(P + "solve.py",
     "    perturbation = PerturbationManager(params.perturbation)\n", "    perturbation = PerturbationManager(params.perturbation) if params.perturbation.max_perturbations else PerturbationManager()\n")]),
    ("c26-displayint", "C26", [(P + "solve.py",
     "return algo.run(stop, collect_stats, display, params.display_interval)", "return algo.run(stop, collect_stats, display)")]),
    # Batch 3: C28
    ("c28-mark", "C28", [(P + "ProgressPrinter.py",
     "        if new_best:\n            self._best_cost = datum.best_cost", "        self._best_cost = datum.best_cost")]),
    ("c28-markfeas", "C28", [(P + "ProgressPrinter.py",
     "new_best = datum.best_feas and datum.best_cost < self._best_cost", "new_best = datum.best_cost < self._best_cost")]),
    ("c28-interval", "C28", [(P + "ProgressPrinter.py",
     "        if not should_print:\n            return\n", "        self._last_print_time = curr_time\n        if not should_print:\n            return\n")]),
    ("c28-restart", "C28", [(P + "ProgressPrinter.py",
     "        if self._print:\n            logger.info(_RESTART)", "        if self._print:\n            self._best_cost = float(\"inf\")\n            logger.info(_RESTART)")]),
    ("c28-vehicles", "C28", [(P + "ProgressPrinter.py",
     "num_v = data.num_vehicles\n", "num_v = sum(v.num_available for v in {v.name: v for v in data.vehicle_types()}.values())\n")]),
    ("c28-elapsed", "C28", [(P + "ProgressPrinter.py",
     "elapsed=round(sum(stats.runtimes))", "elapsed=round(sum(stats.runtimes[-1000:]) % 60)")]),
    ("c28-nostats", "C28", [(P + "IteratedLocalSearch.py",
     "ProgressPrinter(display, display_interval)", "ProgressPrinter(display and collect_stats, display_interval)")]),
    ("c28-order", "C28", [(P + "IteratedLocalSearch.py",
     "            stats.collect(curr, cand, best, cost_eval)\n            print_progress.iteration(stats)\n", "            if stats.data:\n                print_progress.iteration(stats)\n            stats.collect(curr, cand, best, cost_eval)\n")]),
    ("c28-endcost", "C28", [(P + "ProgressPrinter.py",
     "best_cost=result.cost(),", "best_cost=result.cost() if result.is_feasible() else result.best.distance(),")]),
    # batch 4: conditions that need something specific
    ("c10-wd-init", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "    BinaryOperator::init(solution);\n    hasCachedRemoveCost_.reset();", "    BinaryOperator::init(solution);")]),
    ("c10-alt-init", "C10 C11", [(S + "RelocateAlternative.cpp",
     "    solution_ = &solution;\n    hasCachedRemoveCost_.reset();", "    solution_ = &solution;")]),
    ("c10-ship-init", "C10 C11", [(S + "RelocateShipment.cpp",
     "    BinaryOperator::init(solution);\n    hasCachedRemoveCost_.reset();", "    BinaryOperator::init(solution);")]),
    ("c10-ship-update", "C10 C11", [(S + "RelocateShipment.cpp",
     "        if (node->isPickup())\n            hasCachedRemoveCost_", "        if (node->isPickup() && node->trip() == route->numTrips() - 1)\n            hasCachedRemoveCost_")]),
    ("c10-alt-lastship", "C10 C11", [(S + "RelocateAlternative.cpp",
     "if (uRoute->numClients() == 1 && uRoute->numShipments() == 0)", "if (uRoute->numClients() == 1 && uRoute->numShipments() <= uRoute->numTrips() - 1)")]),
    ("c10-wd-pickup", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "if (vRoute->numPickups(V->pos()) != vRoute->numDeliveries(V->pos()))", "if (uRoute != vRoute && vRoute->numPickups(V->pos()) != vRoute->numDeliveries(V->pos()))")]),
    ("c10-wd-trips", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "if (vRoute->numTrips() == vRoute->maxTrips())", "if (vRoute->numTrips() == uRoute->maxTrips())")]),
    ("c10-rd-last", "C10", [(S + "RelocateDelivery.cpp",
     "for (auto const *after = U; !after->isDepot(); after = n(after))", "for (auto const *after = U; !after->isDepot() && (after->pos() < delivery->pos() || !n(after)->isReloadDepot()); after = n(after))")]),
    ("c10-is-last", "C10", [(S + "InsertOptionalShipment.cpp",
     "for (auto const *node = n(V); !node->isDepot(); node = n(node))", "for (auto const *node = n(V); !node->isDepot() && !(node->isDelivery() && n(node)->isDepot()); node = n(node))")]),
    ("c10-ro-replace-req", "C10 C11", [(S + "ReplaceOptionalShipment.cpp",
     "    if (vShipment.required)\n", "    if (vShipment.required && V->isPickup())\n")]),
    ("c10-ic-group", "C10 C11", [(S + "InsertOptionalClient.cpp",
     "            if (solution_->clients[client].route())  // in solution we cannot\n", "            if (client < U->idx() && solution_->clients[client].route())  // in solution we cannot\n")]),
    ("c10-tails-trip", "C10 C11", [(S + "SwapTails.cpp",
     "if (!onLastTrip(U) || !onLastTrip(V))", "if (!onLastTrip(U) || (!V->isStartDepot() && !onLastTrip(V)))")]),
    ("c10-rg-first", "C10 C11", [(S + "ReplaceGroup.cpp",
     "            deltaCost = data.client(client).prize - uData.prize;", "            deltaCost = (data.client(client).prize > 0 ? data.client(client).prize : uData.prize) - uData.prize;")]),
    ("c10-rm-noexact", "C10", [(S + "RemoveAdjacentDepot.cpp",
     "        if (deltaCost < bestCost)\n        {\n            bestCost = deltaCost;\n            move_ = MoveType::REMOVE_NEXT;", "        if (deltaCost <= bestCost)\n        {\n            bestCost = deltaCost;\n            move_ = route->numTrips() > 2 && deltaCost == 0 ? MoveType::REMOVE_PREV : MoveType::REMOVE_NEXT;")]),
    ("c13-fallback", "C13 C11", [(S + "Solution.cpp",
     "    Route::Node *UAfter = routes[0][0];  // fallback option\n    auto bestCost = insertCost(U, UAfter, data_, costEvaluator);",
     "    Route::Node *UAfter = routes[0][0];  // fallback option\n    auto bestCost = required ? std::numeric_limits<Cost>::max() : insertCost(U, UAfter, data_, costEvaluator);")]),
    ("c13-empty-first", "C13", [(S + "Solution.cpp",
     "        if (empty == end)\n            continue;\n\n        auto const cost", "        if (empty == end)\n            break;\n\n        auto const cost")]),
    ("c13-load-eq", "C13 C11", [(S + "Solution.cpp",
     "                              && pyvrp.vehicleType() == search.vehicleType()\n                              && pyvrp.size() == search.size();", "                              && pyvrp.numClients() == search.numClients()\n                              && pyvrp.vehicleType() == search.vehicleType()\n                              && pyvrp.size() == search.size();"),
     (S + "Solution.cpp", "    for (auto const &activity : pyvrp)\n        if (search[idx++]->activity() != activity)", "    for (auto const &activity : pyvrp)\n        if (search[idx++]->activity() != activity && !activity.isDepot())")]),
    ("c13-incr-dim", "C13", [(S + "Solution.cpp",
     "    for (size_t dim = 0; dim != loads_.size(); ++dim)\n        loads_[dim] = pyvrp::LoadSegment::merge(loads_[dim], at.load(dim));", "    for (size_t dim = 0; dim < std::min<size_t>(loads_.size(), 2); ++dim)\n        loads_[dim] = pyvrp::LoadSegment::merge(loads_[dim], at.load(dim));")]),
    ("c13-penalised", "C13", [(S + "Solution.cpp",
     "        if (!solution.shipments[idx].first.route())\n            cost += data.shipment(idx).prize;", "        if (!solution.shipments[idx].first.route() && !data.shipment(idx).required)\n            cost += data.shipment(idx).prize;")]),
    ("c12-nearby", "C12", [(S + "PerturbationManager.cpp",
     "        if (perturbed[idx])\n            return;\n\n        perturbed[idx] = true;\n", "        if (perturbed[idx])\n            return;\n\n        perturbed[idx] = node->isClient() || node->route();\n")]),
    ("c12-move2", "C12", [(S + "PerturbationManager.cpp",
     "                movesLeft--;\n", "                movesLeft -= movesLeft > 1 && route && node->isPickup() ? 2 : 1;\n")]),
    ("c12-keepmarks", "C12", [(S + "PerturbationManager.cpp",
     "    if (numPerturbations_ == 0)  // nothing to do\n        return;\n", "    if (numPerturbations_ == 0)  // nothing to do\n    {\n        searchSpace.unmarkAllPromising();\n        return;\n    }\n")]),
    ("c12-vehorder", "C12 C11", [(S + "SearchSpace.cpp",
     "        vehTypeOrder_.emplace_back(vehType, offset);\n        offset += data.vehicleType(vehType).numAvailable;", "        vehTypeOrder_.emplace_back(vehType, offset);\n        offset += vehType < 2 ? data.vehicleType(vehType).numAvailable : data.vehicleType(2).numAvailable;")]),
    ("c12-self-delivery", "C12", [(S + "SearchSpace.cpp",
     "return item == activity; };", "return item == activity && !item.isPickup(); };")]),
    ("c25-optgroup", "C25", [(C + "Solution.cpp",
     "auto const idx = rng.randint(members.size());", "auto const idx = rng.randint(std::max<size_t>(members.size() - !group.required, 1));")]),
    ("c25-delivery", "C25 C04", [(C + "Solution.cpp",
     "auto const pos = rng.randint(route.size() + 1);", "auto const pos = rng.randint(std::max<size_t>(route.size(), 1));")]),
    ("c25-vehtypes", "C25", [(C + "Solution.cpp",
     "    auto const adjustment\n        = numActivities > numVehicles && numActivities % numVehicles != 0;", "    auto const adjustment\n        = numActivities > 2 * numVehicles && numActivities % numVehicles != 0;")]),
    ("c25-shuffle", "C25", [(C + "Solution.cpp",
     "        if (shipment.required || rng.rand() < 0.5)\n", "        if (shipment.required || rng.rand() < (data.numClients() == 0 ? 1.0 : 0.5))\n")]),
    ("c08-endlate", "C08 C01 C09", [(C + "DurationSegment.h",
     "            cumTimeWarp_ + finalised.timeWarp(),\n            finalised.endLate()};", "            cumTimeWarp_ + finalised.timeWarp(),\n            std::max(finalised.endLate(), finalised.endEarly() + finalised.timeWarp())};")]),
    ("c08-release-cum", "C08 C01 C09", [(C + "DurationSegment.h",
     "            std::max(first.releaseTime_, second.releaseTime_),", "            second.releaseTime_ > second.startLate_ ? second.releaseTime_ : std::max(first.releaseTime_, second.releaseTime_),")]),
    ("c08-overflow", "C08", [(C + "DurationSegment.h",
     "    return netDuration > std::numeric_limits<Duration>::max() - startLate()\n               ? std::numeric_limits<Duration>::max()\n               : startLate() + netDuration;", "    return startLate() == std::numeric_limits<Duration>::max()\n               ? std::numeric_limits<Duration>::max()\n               : startLate() + netDuration;")]),
    ("c08-excess", "C08 C02", [(C + "LoadSegment.h",
     "    return excessLoad_ + std::max<Load>(load() - capacity, 0);", "    return excessLoad_ + std::max<Load>(load() - std::max<Load>(capacity, initial_), initial_ > capacity ? initial_ - capacity : 0);")]),
    ("c09-clear2", "C09", [(S + "Route.cpp",
     "    if (nodes.size() == 2)  // then", "    if (nodes.size() == 2 || (nodes.size() == depots_.size() && numTrips() == 1))  // then")]),
    ("c09-push-depot", "C09", [(S + "Route.cpp",
     "            for (auto &depot : depots_)\n                nodes[depot.pos()] = &depot;", "            for (size_t d = 0; d + (depots_.size() > 3) < depots_.size(); ++d)\n                nodes[depots_[d].pos()] = &depots_[d];")]),
    ("c09-sp", "C09", [(S + "Route.cpp",
     "        for (auto it = depots_.begin() + 1; it != depots_.end(); ++it)\n            load_[dim]", "        for (auto it = depots_.begin() + 1; it != depots_.end() && it - depots_.begin() < 4; ++it)\n            load_[dim]")]),
    ("c09-eq", "C09", [(S + "Route.cpp",
     "        && vehicleType_ == other.vehicleType_\n        && nodes == other.nodes;", "        && vehicleType_ == other.vehicleType_\n        && nodes.size() == other.nodes.size();")]),
    ("c14-count", "C14", [(S + "neighbourhood.cpp",
     "    auto const numShipments = std::max<size_t>(2 * data.numShipments(), 2) - 2;", "    auto const numShipments = 2 * (std::max<size_t>(data.numShipments(), 1) - 1) + (data.numClients() == 0 && data.numShipments() > 2 ? 1 : 0);")]),
    ("c22-csv-delim", "C22", [(P + "Statistics.py",
     "        for row in csv.DictReader(lines, delimiter=delimiter, **kwargs):", "        for row in csv.DictReader(lines, delimiter=\",\" if delimiter in lines[0][:1] else delimiter, **kwargs):\n            if not any(int(row[f.name]) for f in fields(_Datum)):\n                continue")]),
    ("c22-collect", "C22", [(P + "Statistics.py",
     "            cost_evaluator.penalised_cost(best),\n            best.is_feasible(),", "            cost_evaluator.cost(best) if best.is_complete() and not best.has_time_warp() else cost_evaluator.penalised_cost(best),\n            best.is_feasible(),")]),
    ("c22-eq", "C22", [(P + "Statistics.py",
     "            and self.num_iterations == other.num_iterations\n            and self.data == other.data", "            and self.num_iterations == other.num_iterations\n            and self.data[-1:] == other.data[-1:]")]),
    ("c22-summary", "C22 C28", [(P + "Result.py",
     "self.best.num_trips()", "sum(max(r.num_trips(), 1) for r in self.best.routes() if r.num_clients())")]),
    ("c22-str", "C22", [(P + "Result.py",
     "            str(self.best),\n", "            \"\\n\".join(str(self.best).splitlines()[:20]),\n")]),
    ("c29-slack", "C29", [(P + "plotting/plot_route_schedule.py",
     "    if route.slack() > 0:\n", "    if route.slack() > 0 and route.num_trips() == 1:\n")]),
    ("c29-color", "C29", [(P + "plotting/plot_solution.py",
     "            if len(locations) > 1:\n", "            if len(set(locations)) > 1:\n")]),
    ("c29-skip", "C29", [(P + "plotting/plot_objectives.py",
     "        ax.plot(x[num_to_skip:], y[num_to_skip:], *args, **kwargs)", "        y = y[num_to_skip:]\n        ax.plot(x[-len(y) or len(x):], y, *args, **kwargs)")]),
    ("c29-tw", "C29", [(P + "plotting/plot_time_windows.py",
     "np.lexsort((tw[:, 1], tw[:, 0]))", "np.argsort(tw[:, 0], kind=\"stable\")")]),
    ("c29-unplanned", "C29", [(P + "plotting/plot_solution.py",
     "                case ActivityType.DELIVERY:\n                    shipment = data.shipment(activity.idx)\n                    unplanned.append(shipment.delivery.location)", "                case ActivityType.DELIVERY:\n                    continue")]),
    ("c29-endtrip", "C29", [(P + "plotting/plot_solution.py",
     "            end_loc = depot_locs[end]\n", "            end_loc = depot_locs[depots[-1]]\n")]),
    ("c29-service", "C29", [(P + "plotting/plot_route_schedule.py",
     "        serv_time += activity.duration\n", "        serv_time += 0 if activity.is_depot() else activity.duration\n")]),
    ("c15-best-tie", "C15", [(P + "IteratedLocalSearch.py",
     "            self._pm.register(cand)\n", "            if iters % 64 != 63:\n                self._pm.register(cand)\n")]),
    ("c16-warn", "C16", [(P + "PenaltyManager.py",
     "        viol_list.clear()\n", "        viol_list.clear()\n        if penalty == self._params.min_penalty and avg_feas == 0:\n            return penalty\n")]),
    ("c19-tw-depot", "C19", [(P + "read.py",
     "                tw_early=time_windows[depot][0],\n                tw_late=time_windows[depot][1],", "                tw_early=max(time_windows[depot][0], time_windows[0][0]),\n                tw_late=time_windows[depot][1],")]),
    ("c21-lower", "C21", [(P + "minimise_fleet.py",
     "vehicle_type.capacity[dim] * vehicle_type.max_trips", "(vehicle_type.capacity[dim] or 1) * vehicle_type.max_trips")]),
    ("c03-trips", "C03", [(C + "Solution.cpp",
     "{ return count + route.numTrips(); });", "{ return count + std::min<size_t>(route.numTrips(), route.numClients() + 2 * route.numShipments()); });")]),
    ("c03-permute", "C03 C07", [(C + "Solution.cpp",
     "    return std::is_permutation(routes_.begin(),\n                               routes_.end(),\n                               other.routes_.begin(),\n                               other.routes_.end());", "    return std::is_permutation(routes_.begin(),\n                               routes_.end(),\n                               other.routes_.begin(),\n                               other.routes_.end(),\n                               [](auto const &a, auto const &b)\n                               { return a.vehicleType() == b.vehicleType() && a.distance() == b.distance() && a.startTime() == b.startTime() && std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto const &x, auto const &y) { return x.idx() == y.idx(); }); });")]),
    ("c04-manyroutes", "C04", [(C + "Solution.cpp",
     "        if (count > 1)\n        {", "        if (count == 2)\n        {")]),
    ("c11-update", "C11", [(S + "LocalSearch.cpp",
     "        lastUpdate_[idx] = numUpdates_;\n", "        lastUpdate_[idx] = route->empty() ? lastUpdate_[idx] : numUpdates_;\n")]),
    ("c11-uv", "C11", [(S + "LocalSearch.cpp",
     "    if (U != V)\n        update(V);", "    if (U != V && !V->empty())\n        update(V);")]),
    ("c11-mark", "C11", [(S + "LocalSearch.cpp",
     "            if (rU)\n                searchSpace_.markPromising(U);\n            searchSpace_.markPromising(V);", "            if (rU)\n                searchSpace_.markPromising(U);\n            if (!V->isStartDepot())\n                searchSpace_.markPromising(V);")]),
    ("c11-shuffle", "C11", [(S + "LocalSearch.cpp",
     "    rng.shuffle(unaryOps_.begin(), unaryOps_.end());\n", "    if (unaryOps_.size() > 2)\n        unaryOps_.pop_back();\n    rng.shuffle(unaryOps_.begin(), unaryOps_.end());\n")]),
    # batch 5
    ("b5-durcost", "C10", [(S + "Route.h",
     "(unitOvertimeCost() != 0 && maxOvertime() != 0)", "(unitOvertimeCost() != 0 && maxOvertime() != 0 && shiftDuration() != 0)")]),
    ("b5-between-service", "C09 C10", [(S + "Route.h",
     "if (size() != 1 && route_[start]->isReloadDepot())", "if (size() > 2 && route_[start]->isReloadDepot())")]),
    ("b5-prop-overtime", "C10", [(S + "Route.h",
     "+ unitOvertimeCost * static_cast<Cost>(overtime);", "+ unitOvertimeCost * static_cast<Cost>(std::min(overtime, route()->maxOvertime()));")]),
    ("b5-prop-startsreload", "C10", [(S + "Route.h",
     "if (other.startsAtReloadDepot())\n                ls = ls.finalise(capacity);", "if (other.startsAtReloadDepot() && ls.initial() != 0)\n                ls = ls.finalise(capacity);")]),
    ("b5-prop-firstfinal", "C10", [(S + "Route.h",
     "if (segment.startsAtReloadDepot())\n            ds = ds.finaliseFront();", "if (segment.startsAtReloadDepot() && segment.size() > 2)\n            ds = ds.finaliseFront();")]),
    ("b5-prop-depot-service", "C10", [(S + "Route.h",
     "DurationSegment depotDS = {depot, depot.serviceDuration};", "DurationSegment depotDS = {depot, activity.idx() == route()->startDepot() ? depot.serviceDuration : data.depot(route()->startDepot()).serviceDuration};")]),
    ("b5-between-profile", "C10 C09", [(S + "Route.h",
     "        for (size_t step = start; step != end; ++step)\n        {\n            auto const from = route_.locations[step];\n            auto const to = route_.locations[step + 1];\n            distance += mat(from, to);", "        for (size_t step = start; step != end; ++step)\n        {\n            auto const from = route_.locations[step];\n            auto const to = route_.locations[step + 1];\n            distance += step > start + 1 ? mat(to, from) : mat(from, to);")]),
    ("b5-sr-feasible", "C09", [(S + "Route.h",
     "return !hasExcessLoad() && !hasTimeWarp() && !hasExcessDistance();", "return !hasExcessLoad() && !hasTimeWarp() && (!hasExcessDistance() || unitDistanceCost() == 0);")]),
    ("b5-sr-excess", "C09", [(S + "Route.h",
     "[](auto const excess) { return excess > 0; });", "[](auto const excess) { return excess > 1; });")]),
    ("b5-sr-excess2", "C09", [(S + "Route.h",
     "    return std::any_of(excessLoad_.begin(),\n                       excessLoad_.end(),", "    return std::any_of(excessLoad_.begin(),\n                       excessLoad_.begin() + std::min<size_t>(excessLoad_.size(), 2),")]),
    ("b5-hasdist", "C10 C11", [(S + "Route.h",
     "    return unitDistanceCost() != 0\n           || maxDistance()", "    return (unitDistanceCost() != 0 && fixedVehicleCost() >= 0)\n           || distance() > 0\n           && maxDistance()")]),
    ("b5-swap-overlap", "C10 C11", [(S + "Swap.h",
     "V->pos() <= U->pos() + N - 1;", "V->pos() + (N > 2) <= U->pos() + N - 1;")]),
    ("b5-swap-adjacent", "C10 C11", [(S + "Swap.h",
     "return U->pos() + N == V->pos() || V->pos() + M == U->pos();", "return U->pos() + N == V->pos() || V->pos() + M == U->pos() + (M > 1);")]),
    ("b5-swap-split", "C10 C11", [(S + "Swap.h",
     "|| route.numPickups(last) != route.numDeliveries(last);", "|| (segLength < 3 && route.numPickups(last) != route.numDeliveries(last));")]),
    ("b5-swap-trip", "C10 C11", [(S + "Swap.h",
     "&& (U->trip() != V->trip() || overlap(U, V)", "&& ((U->trip() != V->trip() && N == M) || overlap(U, V)")]),
    ("b5-reloc-update", "C10", [(S + "Relocate.h",
     "        if (node->isPickup())\n            hasCachedRemoveCost_[data.numClients() + node->idx()] = false;", "        if (node->isPickup() && N != 2)\n            hasCachedRemoveCost_[data.numClients() + node->idx()] = false;")]),
    ("b5-reloc-empty", "C10", [(S + "Relocate.h",
     "if (uRoute->numClients() + 2 * uRoute->numShipments() == N)", "if (uRoute->numClients() + uRoute->numShipments() == N)")]),
    ("b5-reloc-idx", "C10", [(S + "Relocate.h",
     "auto const idx = (U->isClient() ? 0 : data.numClients()) + U->idx();", "auto const idx = (U->isClient() ? 0 : data.numShipments()) + U->idx();")]),
    ("b5-reloc-init", "C10 C11", [(S + "Relocate.h",
     "    BinaryOperator::init(solution);\n    hasCachedRemoveCost_.reset();", "    BinaryOperator::init(solution);\n    if (!solution.shipments.empty())\n        hasCachedRemoveCost_.reset();")]),
    ("b5-relship-init", "C10 C11", [(S + "RelocateShipment.cpp",
     "    BinaryOperator::init(solution);\n    hasCachedRemoveCost_.reset();", "    BinaryOperator::init(solution);")]),
    ("b5-relship-loop", "C10 C11", [(S + "RelocateShipment.cpp",
     "for (auto const *node = n(V); !node->isDepot(); node = n(node))", "for (auto const *node = n(V); !node->isEndDepot(); node = n(node))")]),
    ("b5-relpick-loop", "C10 C11", [(S + "RelocatePickup.cpp",
     "!node->isDepot(); node = p(node))", "!node->isStartDepot(); node = p(node))")]),
    ("b5-relpick-after", "C10", [(S + "RelocatePickup.cpp",
     "    route->remove(U->pos());\n    route->insert(move_.before->pos(), U);", "    auto const idx = move_.before->pos();\n    route->remove(U->pos());\n    route->insert(idx < U->pos() || move_.before->isDelivery() ? move_.before->pos() : idx - 1, U);")]),
    ("b5-rmship-empty", "C10", [(S + "RemoveOptionalShipment.cpp",
     "if (route->numShipments() == 1 && route->numClients() == 0)", "if (route->numShipments() == 1 && route->numClients() == 0 && route->numTrips() == 1)")]),
    ("b5-replship-prize", "C10", [(S + "ReplaceOptionalShipment.cpp",
     "Cost deltaCost = vShipment.prize - uShipment.prize;", "Cost deltaCost = vShipment.prize - (uShipment.required ? 0 : uShipment.prize);")]),
    ("b5-replship-req", "C10 C11", [(S + "ReplaceOptionalShipment.cpp",
     "if (vShipment.required)", "if (vShipment.required && !uShipment.required)")]),
    ("b5-replcl-group", "C10 C11", [(S + "ReplaceOptionalClient.cpp",
     "if (vData.required || uData.group || vData.group)", "if (vData.required || uData.group)")]),
    ("b5-replgr-prize", "C10", [(S + "ReplaceGroup.cpp",
     "deltaCost = data.client(client).prize - uData.prize;", "deltaCost = group.required ? 0 : data.client(client).prize - uData.prize;")]),
    ("b5-relalt-prize", "C10", [(S + "RelocateAlternative.cpp",
     "            Cost deltaCost = uData.prize - alternativeData.prize;\n            costEvaluator.deltaCost(\n                deltaCost,\n                Route::Proposal(route->before(V->pos()),", "            Cost deltaCost = 0;\n            if (alternativeData.prize > uData.prize)\n                deltaCost = uData.prize - alternativeData.prize;\n            costEvaluator.deltaCost(\n                deltaCost,\n                Route::Proposal(route->before(V->pos()),")]),
    ("b5-relalt-update", "C10 C11", [(S + "RelocateAlternative.cpp",
     "        if (node->isClient())\n            hasCachedRemoveCost_[node->idx()] = false;", "        if (node->isClient() && data.client(node->idx()).group && data.group(*data.client(node->idx()).group).required)\n            hasCachedRemoveCost_[node->idx()] = false;")]),
    ("b5-rwd-depots", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "auto const &vehType = data.vehicleType(vRoute->vehicleType());", "auto const &vehType = data.vehicleType(uRoute->vehicleType());")]),
    ("b5-rwd-trips", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "if (vRoute->numTrips() == vRoute->maxTrips())", "if (vRoute->numTrips() == vRoute->maxTrips() && uRoute != vRoute)")]),
    ("b5-rwd-pick", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "if (vRoute->numPickups(V->pos()) != vRoute->numDeliveries(V->pos()))", "if (uRoute == vRoute && vRoute->numPickups(V->pos()) != vRoute->numDeliveries(V->pos()))")]),
    ("b5-rwd-trip", "C10 C11", [(S + "RelocateWithDepot.cpp",
     "if (uRoute == vRoute && U->trip() != V->trip())", "if (uRoute == vRoute && U->trip() > V->trip())")]),
    ("b5-st-split", "C10 C11", [(S + "SwapTails.cpp",
     "if (splitsShipment(U) || splitsShipment(V))", "if (splitsShipment(U) || (splitsShipment(V) && !n(U)->isEndDepot()))")]),
    ("b5-st-last", "C10 C11", [(S + "SwapTails.cpp",
     "if (!onLastTrip(U) || !onLastTrip(V))", "if (!onLastTrip(U) || (!onLastTrip(V) && !V->isStartDepot()))")]),
    ("b5-rad-zero", "C10 C11", [(S + "RemoveAdjacentDepot.cpp",
     "return std::make_pair(bestCost, bestCost <= 0);", "return std::make_pair(bestCost, bestCost <= 1);")]),
    ("b5-rmcl-group", "C10 C11", [(S + "RemoveOptionalClient.cpp",
     "if (client.group && data.group(*client.group).required)", "if (client.group && client.prize == 0 && data.group(*client.group).required)")]),
    ("b5-inscl-group", "C10 C11", [(S + "InsertOptionalClient.cpp",
     "        for (auto const client : group)              // if any client is already\n            if (solution_->clients[client].route())  // in solution we cannot", "        for (auto const client : group)              // if any client is already\n            if (client < U->idx() && solution_->clients[client].route())  // in solution we cannot")]),
    ("b5-delta-dims", "C05 C10", [(C + "CostEvaluator.h",
     "        out += loadPenalty(vProposal.excessLoad(dim), 0, dim);", "        out += loadPenalty(vProposal.excessLoad(dim), 0, std::min<size_t>(dim, 1));")]),
    ("b5-delta-udur", "C10", [(C + "CostEvaluator.h",
     "    if (vRoute->hasDurationCost())\n    {", "    if (uRoute->hasDurationCost() && vRoute->hasDurationCost())\n    {")]),
    ("b5-ds-endlate", "C01 C08", [(C + "DurationSegment.h",
     "    auto const tripTimeWarp = timeWarp() - cumTimeWarp_;\n    auto const netDuration = duration_ - tripTimeWarp;", "    auto const tripTimeWarp = timeWarp_;\n    auto const netDuration = duration_ - tripTimeWarp;")]),
    ("b5-ds-endearly", "C01 C08", [(C + "DurationSegment.h",
     "    auto const tripTimeWarp = timeWarp() - cumTimeWarp_;\n    return startEarly()", "    auto const tripTimeWarp = timeWarp_;\n    return startEarly()")]),
    ("b5-ds-late", "C08 C21", [(C + "DurationSegment.h",
     "        = atSecond > second.startLate_ - std::numeric_limits<Duration>::max()", "        = atSecond >= 0")]),
    ("b5-ds-cum", "C08 C01", [(C + "DurationSegment.h",
     "            first.cumTimeWarp_ + second.cumTimeWarp_,", "            std::max(first.cumTimeWarp_, second.cumTimeWarp_),")]),
    ("b5-ds-maxdur", "C08 C01", [(C + "DurationSegment.h",
     "    auto const netDuration = duration() - timeWarp;\n", "    auto const netDuration = duration() - timeWarp_ - cumTimeWarp_;\n")]),
    ("b5-cg-eq", "C06 C07", [(C + "ClientGroup.cpp",
     "    return clients_ == other.clients_\n", "    return clients_.size() == other.clients_.size()\n        && std::is_permutation(clients_.begin(), clients_.end(), other.clients_.begin())\n")]),
    ("b5-cg-copy", "C06 C07", [(C + "ClientGroup.cpp",
     "    : clients_(group.clients_),\n      required(group.required),", "    : clients_(group.clients_),\n      required(group.required || group.clients_.size() > 3),")]),
    ("b5-dep-move", "C06 C07", [(C + "Depot.cpp",
     "      twLate(depot.twLate),\n      name(depot.name)  // we can steal", "      twLate(std::max(depot.twLate, depot.twEarly + depot.serviceDuration)),\n      name(depot.name)  // we can steal")]),
    ("b5-dep-eq", "C06 C07", [(C + "Depot.cpp",
     "        && serviceDuration == other.serviceDuration\n", "")]),
    ("b5-ship-eq", "C06 C07", [(C + "Shipment.cpp",
     "        && required == other.required\n", "        && required <= other.required\n")]),
    ("b5-cl-eq", "C06 C07", [(C + "Client.cpp",
     "        && pickup == other.pickup\n", "        && pickup.size() == other.pickup.size()\n")]),
    ("b5-cl-pad", "C06", [(C + "Client.cpp",
     "    if (std::any_of(pickup.begin(), pickup.end(), isNegative<Load>))", "    if (!pickup.empty() && isNegative(pickup.back()))")]),
    ("b5-ship-tw", "C06", [(C + "Shipment.cpp",
     "    if (delivery.twLate < pickup.twEarly)", "    if (delivery.twLate < pickup.twEarly && pickup.twLate > 0 && delivery.twEarly > 0)")]),
    ("b5-ship-amt", "C06", [(C + "Shipment.cpp",
     "if (std::any_of(amount.begin(), amount.end(), isNegative<Load>))", "if (std::all_of(amount.begin(), amount.end(), isNegative<Load>) && !amount.empty())")]),
    ("b5-vt-pickle", "C07", [(C + "bindings.cpp",
     "                    t[15].cast<size_t>(),                    // max reloads", "                    t[14].cast<std::vector<size_t>>().empty() ? 0 : t[15].cast<size_t>(),")]),
    ("b5-neigh-dur", "C14", [(S + "neighbourhood.cpp",
     "                                         vehType.unitDurationCost,\n                                         vehType.profile);", "                                         vehType.unitDistanceCost == 0 ? vehType.unitDurationCost : 0,\n                                         vehType.profile);")]),
    ("b5-neigh-pickdel", "C14", [(S + "neighbourhood.cpp",
     "            // To shipment deliveries.\n            for (size_t del = 0; del != data.numShipments(); ++del)\n            {\n                auto const idx = data.numClients() + data.numShipments() + del;\n                auto const &to = data.shipment(del).delivery;\n                prox(frm, idx) = std::min({cost(shipment.pickup, to),\n                                           cost(shipment.delivery, to),", "            // To shipment deliveries.\n            for (size_t del = 0; del != data.numShipments(); ++del)\n            {\n                auto const idx = data.numClients() + data.numShipments() + del;\n                auto const &to = data.shipment(del).delivery;\n                prox(frm, idx) = std::min({cost(shipment.pickup, to),\n                                           arcCost(shipment.delivery, to),")]),
    ("b5-neigh-max", "C14", [(S + "neighbourhood.cpp",
     "std::max<size_t>(2 * data.numShipments(), 2) - 2;", "std::max<size_t>(2 * data.numShipments(), 3) - 3;")]),
    ("b5-ss-self", "C12", [(S + "SearchSpace.cpp",
     "[&](auto const &item) { return item == activity; };", "[&](auto const &item) { return activity.isClient() && item == activity; };")]),
    ("b5-ss-size", "C12", [(S + "SearchSpace.cpp",
     "if (!neighbours_.empty() && neighbours.size() != neighbours_.size())", "if (!neighbours_.empty() && neighbours.size() < neighbours_.size())")]),
    ("b5-ring-skip", "C22", [(P + "RingBuffer.py",
     "return sum(val is not None for val in self._buffer)", "return min(self._idx, self.maxlen)")]),
    ("b5-iters", "C17", [(P + "stop/MaxIterations.py",
     "return self._curr_iter > self._max_iters", "return self._curr_iter > self._max_iters or best_cost == 0")]),
    ("b5-first", "C17", [(P + "stop/FirstFeasible.py",
     "return best_cost < _INT_MAX", "return 0 < best_cost < _INT_MAX")]),
    ("b5-demand", "C29", [(P + "plotting/plot_demands.py",
     "np.array([client.delivery[dimension] for client in clients])", "np.array([client.delivery[dimension] or client.pickup[dimension] for client in clients])")]),
    ("b5-coords", "C29", [(P + "plotting/plot_coordinates.py",
     "depot_locs = [depot.location for depot in data.depots()]", "depot_locs = sorted({t.start_depot for t in data.vehicle_types()})\n    depot_locs = [data.depot(d).location for d in depot_locs]")]),
    ("b5-runtimes", "C29", [(P + "plotting/plot_runtimes.py",
     "if result.num_iterations > 1:", "if result.num_iterations > 2:")]),
    ("b5-ls-neigh", "C11 C12", [(P + "search/LocalSearch.py",
     "        self._ls.neighbours = neighbours\n", "        if len(neighbours) == len(self._ls.neighbours):\n            self._ls.neighbours = neighbours\n")]),
    ("b5-bits-all", "C23", [(C + "DynamicBitset.cpp",
     "    for (auto const &bitset : data_)\n        if (!bitset.all())\n            return false;\n    return true;", "    return count() >= size() - (data_.size() > 2);")]),
    # Batch 6.
    ("b6-pm", "C27", [(S + "bindings.cpp",
     "             py::keep_alive<1, 2>(),  // keep data alive until LS is freed\n             py::keep_alive<1, 4>())  // also keep perturbation_manager alive", "             py::keep_alive<1, 2>())  // keep data alive until LS is freed")]),
    ("b6-route-data", "C27", [(S + "bindings.cpp",
     "        .def(py::init<pyvrp::ProblemData const &, size_t>(),\n             py::arg(\"data\"),\n             py::arg(\"vehicle_type\"),\n             py::keep_alive<1, 2>())  // keep data alive", "        .def(py::init<pyvrp::ProblemData const &, size_t>(),\n             py::arg(\"data\"),\n             py::arg(\"vehicle_type\"))")]),
]
